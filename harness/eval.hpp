// Reference evaluator of expressions
#pragma once
#include "expr.hpp"
typedef std::vector<Val> L;
struct EErr { bool unbound = false; };        // the expression is an error
struct Skip {}; struct Huge : Skip {};                               // nothing is prescribed (C leaves the conversion undefined)
static inline Val any(const std::string &types = ""){ Val v; v.t = '*'; v.s = types; return v; }   // a value of one of these types that is not prescribed
static inline bool eqw(const Val &w, const Val &g){ return w.t == '*' ? w.s.empty() || w.s.find(g.t) != std::string::npos : eq(w, g); }
static inline bool eqw(const L &w, const L &g){ if(w.size() != g.size()) return false; for(size_t k = 0; k < w.size(); k++) if(!eqw(w[k], g[k])) return false; return true; }
static inline std::string str(const L &l){ std::string o = "["; for(auto &v : l) o += (o.size() > 1 ? " " : "") + (v.t == '*' ? "*" + v.s : str(v)); return o + "]"; }
static inline bool wild(const L &l){ for(auto &v : l) if(v.t == '*') return true; return false; }
// ---- conversions (decided by C04)
template<class T> static bool fits(double d){ return d == d && trunc(d) >= (double)std::numeric_limits<T>::min() && (sizeof(T) == 8 ? trunc(d) < (std::numeric_limits<T>::is_signed ? 9223372036854775808. : 18446744073709551616.) : trunc(d) <= (double)std::numeric_limits<T>::max()); }
template<class T> static T toI(const Val &v){
	switch(v.t){
	case '*': throw Skip();
	case 'T': return 1;
	case 'F': case 'N': case 'b': case '.': return 0;
	case 'f': case 'd': if(!fits<T>(v.d)) throw Skip(); return (T)v.d;
	case 's': if(sizeof(T) == 1) return (T)v.s.c_str()[0];
		if(sizeof(T) == 8) return std::numeric_limits<T>::is_signed ? (T)strtoll(v.s.c_str(), NULL, 10) : (T)strtoull(v.s.c_str(), NULL, 10);
		return std::numeric_limits<T>::is_signed ? (T)strtol(v.s.c_str(), NULL, 10) : (T)strtoul(v.s.c_str(), NULL, 10);
	case 't': throw Skip();
	}
	return v.t == 'H' ? (T)(uint64_t)v.i : (T)v.i;
}
static inline double toD(const Val &v){ switch(v.t){ case '*': case 't': throw Skip(); case 'T': return 1; case 'F': case 'N': case 'b': case '.': return 0; case 'f': case 'd': return v.d; case 's': return strtod(v.s.c_str(), NULL); case 'H': return (double)(uint64_t)v.i; } return (double)v.i; }
static inline int toB(const Val &v){ switch(v.t){ case '*': throw Skip(); case 'T': return 1; case 'F': case 'N': case 's': case 'b': case '.': case 't': return 0; case 'f': case 'd': return v.d != 0; } return v.i != 0; }
static inline bool isnum(char t){ return t && strchr("TFcCuUiIhHfd", t); }
static inline int trank(char t){ return strchr("NTFcCuUiIhHfdt", t) - "NTFcCuUiIhHfdt"; }
static inline Val mkInt(char t, __int128 r){ switch(t){ case 'c': return vi(t, (int8_t)r); case 'C': return vi(t, (uint8_t)r); case 'u': return vi(t, (int16_t)r); case 'U': return vi(t, (uint16_t)r); case 'I': return vi(t, (uint32_t)r); case 'H': return vi(t, (int64_t)(uint64_t)r);
	case 'i': if(r < INT32_MIN || r > INT32_MAX) return any("i"); return vi(t, (int64_t)r); case 'h': if(r < INT64_MIN || r > INT64_MAX) return any("h"); return vi(t, (int64_t)r); } abort(); }
static inline __int128 asInt(char t, const Val &v){ switch(t){ case 'c': return toI<int8_t>(v); case 'C': return toI<uint8_t>(v); case 'u': return toI<int16_t>(v); case 'U': return toI<uint16_t>(v); case 'i': return toI<int32_t>(v); case 'I': return toI<uint32_t>(v); case 'h': return toI<int64_t>(v); case 'H': return toI<uint64_t>(v); } abort(); }
static inline char promoted(char a, char b){ if(isflt(a) || isflt(b)) return 'd'; char t = trank(a) > trank(b) ? a : b; return t == 'T' || t == 'F' ? 'i' : t; }
static inline Val vbool(bool b){ return vt(b ? 'T' : 'F'); }
static inline t_osc_timetag ttOf(const Val &v){ if(v.t == 't') return mktt(v.i); double d = toD(v); if(!(d >= 0 && d < 4294967296.)) throw Skip(); return osc_timetag_floatToTimetag(d); }   // decided by C16
static inline bool isBool(char t){ return t == 'T' || t == 'F'; }
static inline Val arith(char op, const Val &a, const Val &b){
	if(a.t == '*' || b.t == '*') throw Skip();
	if(op == '+' && a.t == 's' && b.t == 's') return vs(a.s + b.s);
	if(op == '+' && a.t == 's' && isnum(b.t)) return vs(a.s + txt(b).c_str());
	if(op == '+' && b.t == 's' && isnum(a.t)) return vs(std::string(txt(a).c_str()) + b.s);
	if((op == '+' || op == '-') && (a.t == 't' || b.t == 't')){
		if(!(a.t == 't' || isnum(a.t)) || !(b.t == 't' || isnum(b.t))) throw EErr();
		t_osc_timetag x = ttOf(a), y = ttOf(b);
		if(op == '+') return vi('t', rdtt(osc_timetag_add(x, y)));
		t_osc_timetag r = osc_timetag_subtract(x, y); return a.t == 't' && b.t == 't' ? vd('d', osc_timetag_timetagToFloat(r)) : vi('t', rdtt(r));
	}
	if(!isnum(a.t) || !isnum(b.t)) throw EErr();
	char t = promoted(a.t, b.t);
	if(t == 'd'){ double x = toD(a), y = toD(b); if(op == '/') return y == 0 ? vs("Inf") : vd('d', x / y); return vd('d', op == '+' ? x + y : op == '-' ? x - y : x * y); }
	__int128 x = asInt(t, a), y = asInt(t, b); if(op == '/' && y == 0) return vs("Inf");
	return mkInt(t, op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y);
}
static inline Val modOp(const Val &a, const Val &b){
	if(!isnum(a.t) || !isnum(b.t)) throw Skip();
	char t = promoted(a.t, b.t); if(toD(b) == 0) return a;
	if(t == 'd'){ double x = toD(a), m = toD(b), q = x / fabs(m); if(!(fabs(q) < 9007199254740992.)) return any("d"); return vd('d', x - fabs(m) * floor(q)); }
	__int128 x = asInt(t, a), m = asInt(t, b); if(m < 0) m = -m; if(!m) throw Skip(); __int128 r = x % m; if(r < 0) r += m; return mkInt(t, r);
}
// -1, 0, 1; 2: unordered; 3: the order of the numbers and of the doubles they become differ
static inline int cmpNum(const Val &a, const Val &b){
	double x = toD(a), y = toD(b); if(x != x || y != y) return 2; int c = x < y ? -1 : x > y;
	if(!isflt(a.t) && !isflt(b.t)){ __int128 p = a.t == 'H' || !isint(a.t) ? (__int128)toI<uint64_t>(a) : a.i, q = b.t == 'H' || !isint(b.t) ? (__int128)toI<uint64_t>(b) : b.i; if((p < q ? -1 : p > q) != c) return 3; }
	return c;
}
static inline bool rel(const std::string &op, int c){ return op == "<" ? c < 0 : op == "<=" ? c <= 0 : op == ">" ? c > 0 : op == ">=" ? c >= 0 : op == "==" ? c == 0 : c != 0; }
static inline Val compareOp(const std::string &op, const Val &a, const Val &b){
	if(a.t == '*' || b.t == '*') throw Skip();
	bool eqop = op == "==" || op == "!=";
	if(a.t == 's' && b.t == 's') return vbool(rel(op, a.s < b.s ? -1 : a.s > b.s));
	if(!eqop && ((a.t == 's' && isnum(b.t)) || (b.t == 's' && isnum(a.t)))) return vbool(rel(op, a.t == 's' ? 1 : -1));
	if(isnum(a.t) && isnum(b.t)){ int c = cmpNum(a, b); if(c == 3) return any("TF"); if(c == 2) return vbool(op == "!="); return vbool(rel(op, c)); }
	if((a.t == 't' || isnum(a.t)) && (b.t == 't' || isnum(b.t))) return vbool(rel(op, osc_timetag_compare(ttOf(a), ttOf(b))));
	if(eqop && (a.t == 'N' || b.t == 'N')) return vbool(rel(op, a.t == 'N' && b.t == 'N' ? 0 : 1));
	if(eqop && a.t == '.' && b.t == '.') return vbool(rel(op, enc(*a.b) == enc(*b.b) ? 0 : 1));
	throw EErr();
}
static inline std::string canon(const std::string &f){ static const std::map<std::string, std::string> m{{"add", "+"}, {"sub", "-"}, {"mul", "*"}, {"div", "/"}, {"lt", "<"}, {"le", "<="}, {"gt", ">"}, {"ge", ">="}, {"eq", "=="}, {"ne", "!="}, {"and", "&"}, {"or", "|"}, {"mod", "%"}, {"not", "!"}, {"+=", "+"}, {"-=", "-"}, {"*=", "*"}, {"/=", "/"}, {"%=", "%"}, {"andalso", "&&"}, {"orelse", "||"}, {"assign", "="}, {"++", "plus1"}, {"--", "minus1"}}; auto k = m.find(f); return k == m.end() ? f : k->second; }
static inline bool isBin(const std::string &f){ static const std::set<std::string> s{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&", "|"}; return s.count(f); }
// one operand may be missing: a single value against an empty list
static inline Val bin(const std::string &f, const Val *a, const Val *b){
	bool cmp = f == "<" || f == ">" || f == "<=" || f == ">=" || f == "==" || f == "!=";
	if(!a || !b){ if(cmp || f == "&") return vt('F'); if(f == "|") return vbool(a ? toB(*a) : b ? toB(*b) : 0); if(f == "%" && !a) return vi('i', 0); return a ? *a : *b; }
	if(cmp) return compareOp(f, *a, *b);
	if(f == "&") return vbool(toB(*a) & toB(*b)); if(f == "|") return vbool(toB(*a) | toB(*b));
	return f == "%" ? modOp(*a, *b) : arith(f[0], *a, *b);
}
template<class F> static L broadcast(const L &a, const L &b, F f){
	L r; size_t n = a.size() == 1 || b.size() == 1 ? std::max(a.size(), b.size()) : std::min(a.size(), b.size());
	for(size_t k = 0; k < n; k++){ size_t i = a.size() == 1 ? 0 : k, j = b.size() == 1 ? 0 : k; r.push_back(f(i < a.size() ? &a[i] : NULL, j < b.size() ? &b[j] : NULL)); }
	return r;
}
static inline const std::map<std::string, double (*)(double)> &fun1(){ static const std::map<std::string, double (*)(double)> m{{"abs", fabs}, {"acos", acos}, {"asin", asin}, {"atan", atan}, {"ceil", ceil}, {"cos", cos}, {"cosh", cosh}, {"exp", exp}, {"floor", floor}, {"log", log}, {"log10", log10}, {"sin", sin}, {"sinh", sinh}, {"sqrt", sqrt}, {"tan", tan}, {"tanh", tanh}, {"erf", erf}, {"erfc", erfc}, {"gamma", tgamma}, {"j0", j0}, {"j1", j1}, {"lgamma", lgamma}, {"y0", y0}, {"y1", y1}, {"acosh", acosh}, {"asinh", asinh}, {"atanh", atanh}, {"cbrt", cbrt}, {"expm1", expm1}, {"logb", logb}, {"round", round}, {"nextafter", [](double x){ return nextafter(x, INFINITY); }}}; return m; }
static inline const std::map<std::string, double (*)(double, double)> &fun2(){ static const std::map<std::string, double (*)(double, double)> m{{"atan2", atan2}, {"fmod", fmod}, {"pow", pow}, {"hypot", hypot}, {"remainder", remainder}}; return m; }
static inline const std::map<std::string, double> &consts(){ static const std::map<std::string, double> m{{"pi", M_PI}, {"twopi", 2 * M_PI}, {"halfpi", M_PI_2}, {"quarterpi", M_PI_4}, {"oneoverpi", M_1_PI}, {"twooverpi", M_2_PI}, {"degtorad", M_PI / 180}, {"radtodeg", 180 / M_PI}, {"e", M_E}, {"lntwo", M_LN2}, {"lnten", M_LN10}, {"logtwoe", M_LOG2E}, {"logtene", M_LOG10E}, {"sqrttwo", M_SQRT2}, {"sqrthalf", M_SQRT1_2}, {"phi", 1.6180339887498948482}, {"twelfth_root_of_2", pow(2, 1. / 12)}, {"thirteenth_root_of_3", pow(3, 1. / 13)}}; return m; }
static inline Val step1(const Val &v, int by){ if(isBool(v.t)) return mkInt('i', (__int128)toI<int32_t>(v) + by); if(v.t == 'f') return vd('f', (float)v.d + (float)by); if(v.t == 'd') return vd('d', v.d + by); if(isint(v.t)) return mkInt(v.t, asInt(v.t, v) + by); if(v.t == '*') throw Skip(); throw EErr(); }
static inline Val notOp(const Val &v){ if(isint(v.t)) return vi('i', v.i == 0); if(isflt(v.t)) return vi('i', !(v.d != 0)); if(v.t == '*') throw Skip(); if(v.t == 's' || v.t == 'b' || v.t == '.') return v; return vbool(v.t == 'F' || v.t == 'N'); }
static bool callOp(const std::string &f, const std::vector<L> &a, L &r){
	r.clear();
	if(isBin(f)){ r = broadcast(a[0], a[1], [&](const Val *x, const Val *y){ return bin(f, x, y); }); return true; }
	{ auto k = fun1().find(f); if(k != fun1().end()){ if(a[0].empty()) throw EErr(); for(auto &v : a[0]) r.push_back(v.t == 'N' || !isnum(v.t) ? any("d") : vd('d', k->second(toD(v)))); return true; } }
	{ auto k = fun2().find(f); if(k != fun2().end()){ r = broadcast(a[0], a[1], [&](const Val *x, const Val *y){ return !x || !y || !isnum(x->t) || !isnum(y->t) ? any("d") : vd('d', k->second(toD(*x), toD(*y))); }); return true; } }
	{ auto k = consts().find(f); if(k != consts().end()){ r.push_back(vd('d', k->second)); return true; } }
	if(f == "plus1" || f == "minus1"){ for(auto &v : a[0]) r.push_back(step1(v, f == "plus1" ? 1 : -1)); return true; }
	if(f == "!"){ for(auto &v : a[0]) r.push_back(notOp(v)); return true; }
	if(f == "ilogb"){ for(auto &v : a[0]) r.push_back(isnum(v.t) ? vi('i', ilogb(toD(v))) : any("i")); return true; }
	if(f == "jn" || f == "yn"){ if(a[0].size() != 1 || a[1].size() != 1 || !isnum(a[0][0].t) || !isnum(a[1][0].t)) throw Skip(); int n = toI<int32_t>(a[0][0]); double x = toD(a[1][0]); r.push_back(vd('d', f == "jn" ? jn(n, x) : yn(n, x))); return true; }
	return false;
}
// ---- the implementation: one evaluation of one expression on a serialized bundle
struct Got { int e = 0; bool null = true; L v; bool nob = false; std::string b; };
static inline Got evalOn(t_osc_expr *f, const std::string &bytes, bool rdv = true){
	Got g; long len = bytes.size(); char *b = NULL; if(len){ b = (char *)osc_mem_alloc(len); memcpy(b, bytes.data(), len); }
	t_osc_atom_ar_u *out = NULL; g.e = osc_expr_eval(f, &len, &b, &out, NULL); vc::trans();
	if(out){ g.null = false; for(long k = 0; rdv && k < osc_atom_array_u_getLen(out); k++) g.v.push_back(rdV((t_osc_atom_u *)osc_atom_array_u_get(out, k))); osc_atom_array_u_free(out); }
	if(b){ g.b.assign(b, len); osc_mem_free(b); } else g.nob = true;
	return g;
}
// ---- list functions
struct Soft {};   // an error or an empty result
static inline L cat(const std::vector<L> &a, size_t from = 0){ L r; for(size_t k = from; k < a.size(); k++) r.insert(r.end(), a[k].begin(), a[k].end()); return r; }
static inline bool allnum(const L &l){ for(auto &v : l) if(!isnum(v.t)) return false; return true; }
static inline bool allfin(const L &l){ for(auto &v : l) if(isflt(v.t) && !std::isfinite(v.d)) return false; return true; }
static inline bool anyflt(const L &l){ for(auto &v : l) if(isflt(v.t)) return true; return false; }
static inline Val intRes(__int128 r){   // an integer total: the first type that holds it
	if((r < 0 ? -r : r) > ((__int128)1 << 53)) return any("hHd");
	if(r >= INT32_MIN && r <= INT32_MAX) return vi('i', (int64_t)r); if(r >= 0 && r <= UINT32_MAX) return vi('I', (int64_t)r); return vi('h', (int64_t)r);
}
static inline std::string sText(const Val &v){ if(v.t == 's') return v.s; if(v.t == 'b' || v.t == '.' || v.t == 't' || v.t == '*') throw Skip(); return std::string(txt(v).c_str()); }
static inline Val castV(char t, const Val &v){
	if(v.t == 'b' && t != 's') return any(t == 'T' ? "TF" : std::string(1, t));   // decided by C04
	try{ switch(t){
	case 'c': return vi(t, toI<int8_t>(v)); case 'C': return vi(t, toI<uint8_t>(v)); case 'u': return vi(t, toI<int16_t>(v)); case 'U': return vi(t, toI<uint16_t>(v)); case 'i': return vi(t, toI<int32_t>(v)); case 'I': return vi(t, toI<uint32_t>(v)); case 'h': return vi(t, toI<int64_t>(v)); case 'H': return vi(t, toI<uint64_t>(v));
	case 'd': return vd('d', toD(v)); case 'f': return vd('f', isint(v.t) ? (v.t == 'H' ? (float)(uint64_t)v.i : (float)v.i) : (float)toD(v)); case 'T': return vbool(toB(v));
	case 's': if(v.t == 'b' || v.t == '.' || v.t == 't') return any("s"); if(v.t == 'c' || v.t == 'C'){ int c = (int)v.i; return vs(c >= 32 && c < 127 ? std::string(1, (char)c) : std::to_string(c)); } return vs(sText(v));
	} }catch(Skip &){ return any(t == 'T' ? "TF" : std::string(1, t)); }
	return any("b");
}
static inline bool sortLess(const Val &a, const Val &b){ if(a.t == 's' || b.t == 's') return b.t == 's' && (a.t != 's' || a.s < b.s); return toD(a) < toD(b); }
static inline bool passThrough(char t){ return strchr("sTFNb.", t); }
static inline Val numRes(bool flt, double d){ if(flt) return vd('d', d); if(d != d) return any(); double t = trunc(d); if(t >= INT32_MIN && t <= INT32_MAX) return vi('i', (int64_t)t); return any(); }
static bool callList(const std::string &f, const std::vector<L> &a, L &r){
	r.clear(); L all = cat(a); size_t n = a.size();
	if(f == "nth"){ L src = a[0]; if(src.size() == 1 && src[0].t == 'b'){ L by; for(char c : src[0].s) by.push_back(vi('c', c)); src = by; }
		for(auto &v : cat(a, 1)){ if(!isnum(v.t)) throw Skip(); int32_t k = toI<int32_t>(v); if(k < 0 || k >= (long)src.size()) throw EErr(); r.push_back(src[k]); } return true; }
	if(f == "sum" || f == "product"){ if(!allnum(all)) throw Skip(); if(anyflt(all)){ double s = f == "sum" ? 0 : 1; for(auto &v : all) if(f == "sum") s += toD(v); else s *= toD(v); r.push_back(vd('d', s)); return true; }
		__int128 s = f == "sum" ? 0 : 1; bool big = false; for(auto &v : all){ s = f == "sum" ? s + asInt(v.t == 'H' ? 'H' : 'h', v) : s * asInt(v.t == 'H' ? 'H' : 'h', v); if((s < 0 ? -s : s) > ((__int128)1 << 63)) big = true; if(big) break; } r.push_back(big ? any("iIhHd") : intRes(s)); return true; }
	if(f == "cumsum"){ if(!allnum(all)) throw Skip(); char t = 0; static const char *o = "cCuUiIhHfd"; for(auto &v : all){ char e = isBool(v.t) ? 'i' : v.t; if(!t || strchr(o, e) > strchr(o, t)) t = e; }
		if(!t) return true; if(isflt(t)){ double s = 0; for(auto &v : all){ if(t == 'f') s = (float)(s + (float)toD(v)); else s += toD(v); r.push_back(vd(t, s)); } return true; }
		__int128 s = 0; bool bad = false; for(auto &v : all){ s += asInt(t, v); Val e = mkInt(t, s); if(e.t == '*') bad = true; r.push_back(bad ? any(std::string(1, t)) : e); } return true; }
	if(f == "length"){ r.push_back(vi('i', all.size())); return true; }
	if(f == "mean"){ if(a[0].empty()) throw Soft(); if(!allnum(a[0])) throw Skip(); double s = 0; for(auto &v : a[0]) s += toD(v); r.push_back(vd('d', s / a[0].size())); return true; }
	if(f == "median"){ if(a[0].empty()) throw Soft(); if(!allnum(a[0])) throw Skip(); std::vector<double> d; for(auto &v : a[0]){ double x = toD(v); if(x != x) throw Skip(); d.push_back(x); } std::sort(d.begin(), d.end()); size_t m = d.size(); r.push_back(vd('d', m % 2 ? d[m / 2] : (d[m / 2 - 1] + d[m / 2]) / 2)); return true; }
	if(f == "reverse"){ r.assign(a[0].rbegin(), a[0].rend()); return true; }
	if(f == "nonzero"){ for(size_t k = 0; k < a[0].size(); k++) if(toB(a[0][k])) r.push_back(vi('i', k)); return true; }
	if(f == "list"){ r = all; return true; }
	if(f == "nfill"){ if(a[0].empty()) throw Skip(); if(!isnum(a[0][0].t)) throw Skip(); int32_t k = toI<int32_t>(a[0][0]); L x = n > 1 ? a[1] : L{any("dif")}; if(k > 20000) throw Huge(); for(int j = 0; j < k; j++) r.insert(r.end(), x.begin(), x.end()); return true; }
	if(f == "aseq"){ for(auto &l : a) if(l.empty()) throw Skip(); L h; for(auto &l : a) h.push_back(l[0]); if(!allnum(h) || !allfin(h)) throw Skip();
		bool flt = anyflt(h); double s = toD(h[0]), e = toD(h[1]); if(s == e){ r.push_back(h[0]); return true; } double st = n > 2 ? toD(h[2]) : e > s ? 1 : -1; if(st == 0 || (st > 0) != (e > s)) throw EErr();
		double cnt = floor(fabs(e - s) / fabs(st)) + 1; if(cnt > 20000) throw Huge(); for(double k = 0; k < cnt; k++){ double x = s + k * st; r.push_back(flt ? vd('d', x) : (x >= INT32_MIN && x <= INT32_MAX) ? vi('i', (int64_t)x) : any("iIhHd")); } return true; }
	if(f == "first"){ if(a[0].size()) r.push_back(a[0][0]); return true; }
	if(f == "last"){ if(a[0].size()) r.push_back(a[0].back()); return true; }
	if(f == "rest"){ if(a[0].size()) r.assign(a[0].begin() + 1, a[0].end()); return true; }
	if(f == "butlast"){ if(a[0].size()) r.assign(a[0].begin(), a[0].end() - 1); return true; }
	if(f == "interleave"){ size_t m = a[0].size(); for(auto &l : a) m = std::min(m, l.size()); for(size_t k = 0; k < m; k++) for(auto &l : a) r.push_back(l[k]); return true; }
	if(f == "dot"){ if(!allnum(all)) throw Skip(); double s = 0; for(size_t k = 0; k < std::min(a[0].size(), a[1].size()); k++) s += toD(a[0][k]) * toD(a[1][k]); r.push_back(vd('d', s)); return true; }
	if(f == "cross"){ if(a[0].size() != 3 || a[1].size() != 3) throw EErr(); for(auto &v : all) if(!isint(v.t) && !isflt(v.t)) throw Skip(); char t = 0; static const char *o = "cCuUiIhHfd"; for(auto &v : all) if(!t || strchr(o, v.t) > strchr(o, t)) t = v.t;
		static const int ix[3][4] = {{1, 2, 2, 1}, {2, 0, 0, 2}, {0, 1, 1, 0}}; for(auto &q : ix){ if(isflt(t)){ auto c = [&](const Val &v){ return t == 'f' ? (double)(float)toD(v) : toD(v); }; r.push_back(vd(t, c(a[0][q[0]]) * c(a[1][q[1]]) - c(a[0][q[2]]) * c(a[1][q[3]]))); } else r.push_back(mkInt(t, asInt(t, a[0][q[0]]) * asInt(t, a[1][q[1]]) - asInt(t, a[0][q[2]]) * asInt(t, a[1][q[3]]))); } return true; }
	if(f == "det"){ for(auto &l : a) if(n > 1 && l.size() != n) throw EErr(); if(!allnum(all) || !allfin(all)) throw Skip(); if(n == 1 && a[0].size() != 1) throw Skip();
		std::vector<int> p; for(size_t k = 0; k < n; k++) p.push_back((int)k); double s = 0; do{ int inv = 0; for(size_t x = 0; x < n; x++) for(size_t y = x + 1; y < n; y++) inv += p[x] > p[y]; double m = inv % 2 ? -1 : 1; for(size_t x = 0; x < n; x++) m *= toD(a[x][p[x]]); s += m; }while(std::next_permutation(p.begin(), p.end())); r.push_back(vd('d', s)); return true; }
	if(f == "l2norm"){ if(!allnum(a[0])) throw Skip(); double s = 0; for(auto &v : a[0]) s += toD(v) * toD(v); r.push_back(vd('d', sqrt(s))); return true; }
	if(f == "min" || f == "max" || f == "extrema" || f == "range"){ if(a[0].empty()) throw Soft(); if(!allnum(a[0])) throw Skip(); for(auto &v : a[0]) if(isflt(v.t) && v.d != v.d) throw Skip();
		auto lo = a[0][0], hi = a[0][0]; for(auto &v : a[0]){ if(toD(v) < toD(lo)) lo = v; if(toD(v) > toD(hi)) hi = v; }
		// any of several equal extremes may be given
		auto pick = [&](const Val &e){ std::string ts; bool same = true; for(auto &v : a[0]) if(toD(v) == toD(e)){ ts += v.t; if(!eq(v, e)) same = false; } return same ? e : any(ts); };
		if(f == "range"){ double d = toD(hi) - toD(lo); if(!std::isfinite(d)) throw Skip(); if(anyflt(a[0])){ std::string ts; for(auto &v : a[0]) if(toD(v) == toD(lo) || toD(v) == toD(hi)) ts += v.t; bool f1 = false, i1 = false; for(char c : ts) (isflt(c) ? f1 : i1) = true; if(f1 && i1) r.push_back(any()); else if(f1) r.push_back(vd('d', d)); else r.push_back(d <= INT32_MAX ? vi('i', (int64_t)d) : any("iIhHd")); } else r.push_back(d > 9e15 ? any("iIhHd") : intRes((__int128)d)); return true; }
		if(f != "max") r.push_back(pick(lo)); if(f != "min") r.push_back(pick(hi)); return true; }
	if(f == "clip"){ if(a[1].empty() || a[2].empty()) throw Skip(); if(!isnum(a[1][0].t) || !isnum(a[2][0].t)) throw Skip(); double lo = toD(a[1][0]), hi = toD(a[2][0]); if(!(lo <= hi)) throw Skip();
		for(auto &v : a[0]){ if(passThrough(v.t)){ r.push_back(v); continue; } if(v.t == 't'){ r.push_back(any()); continue; } double x = toD(v); if(x != x){ r.push_back(any()); continue; } double y = x < lo ? lo : x > hi ? hi : x; bool flt = isflt(v.t) || isflt(a[1][0].t) || isflt(a[2][0].t); if(flt) r.push_back(vd('d', y)); else if(y >= INT32_MIN && y <= INT32_MAX) r.push_back(vi('i', (int64_t)y)); else { Val w = intRes((__int128)y); r.push_back(fabs(y) > 9e15 ? any("iIhHd") : w); } } return true; }
	if(f == "scale"){ for(int k = 1; k < 5; k++) if(a[k].empty()) throw Skip(); L h; for(int k = 1; k < 5; k++) h.push_back(a[k][0]); if(!allnum(h) || !allfin(h)) throw Skip(); double i0 = toD(h[0]), i1 = toD(h[1]), o0 = toD(h[2]), o1 = toD(h[3]); bool fl = anyflt(h);
		for(auto &v : a[0]){ if(passThrough(v.t)){ r.push_back(v); continue; } if(v.t == 't'){ r.push_back(any()); continue; } long double x = toD(v), y = o0; bool ex = true; if(o0 != o1){ if(i0 == i1){ r.push_back(any()); continue; } long double p = (x - i0) * (o1 - o0); y = o0 + p / (i1 - i0); ex = fabsl(p) < 4e15 && fabsl(x) < 4e15; }
			bool flt = fl || isflt(v.t); if(flt){ r.push_back(vd('d', (double)y)); continue; } long double tol = ex && y == truncl(y) ? 0 : 1e-9L * std::max({1.L, fabsl(y), fabsl((long double)o0)}); if(y != y || fabsl(y) > 4e15 || truncl(y - tol) != truncl(y + tol)) r.push_back(any("iIhHd")); else r.push_back(intRes((__int128)y)); } return true; }
	if(f == "mtof" || f == "ftom"){ double base = 440; if(n > 1 && a[1].size()){ if(!isnum(a[1][0].t)) throw Skip(); base = toD(a[1][0]); }
		for(auto &v : a[0]){ if(passThrough(v.t)) r.push_back(v); else if(v.t == 't') r.push_back(any()); else r.push_back(vd('d', f == "mtof" ? base * pow(2, (toD(v) - 69) / 12) : 69 + 12 * log2(toD(v) / base))); } return true; }
	if(f == "sign"){ for(auto &v : a[0]){ if(!isnum(v.t)){ r.push_back(any("i")); continue; } double x = toD(v); r.push_back(x != x ? any("i") : vi('i', x < 0 ? -1 : x > 0)); } return true; }
	if(f == "identity" || f == "prog1"){ r = a[0]; return true; }
	if(f == "prog2"){ if(n < 2) throw EErr(); r = a[1]; return true; }
	if(f == "progn"){ r = a[n - 1]; return true; }
	if(f == "typetags"){ for(auto &v : a[0]) r.push_back(vi('c', v.t)); return true; }
	if(f == "strcmp"){ if(a[0].empty() || a[1].empty()) throw Soft(); if(n > 2 && a[2].empty()) throw Skip(); std::string x = sText(a[0][0]), y = sText(a[1][0]); if(n > 2){ if(!isnum(a[2][0].t)) throw Skip(); int k = toI<int32_t>(a[2][0]); if(k < 0) throw Skip(); x = x.substr(0, k); y = y.substr(0, k); } r.push_back(vi('i', x == y ? 0 : x < y ? -1 : 1)); return true; }
	if(f == "strlen"){ for(auto &v : a[0]){ try{ r.push_back(vi('h', sText(v).size())); }catch(Skip &){ r.push_back(any("h")); } } return true; }
	if(f == "strchar"){ for(auto &v : a[1]){ std::string s = sText(v), o; for(auto &k : a[0]){ if(!isnum(k.t)) throw Skip(); int32_t p = toI<int32_t>(k); if(p < 0 || p >= (long)s.size()) throw EErr(); o += s[p]; } r.push_back(vs(o)); } return true; }
	if(f == "strfind"){ if(a[0].empty() || a[1].empty()) throw Soft(); std::string x = sText(a[0][0]), y = sText(a[1][0]); if(x.empty()) throw Soft(); for(size_t p = 0; (p = y.find(x, p)) != std::string::npos; p += x.size()) r.push_back(vi('h', p)); return true; }
	if(f == "split"){ if(a[0].empty() || a[1].empty()) throw Soft(); std::string x = sText(a[0][0]), y = sText(a[1][0]), o; if(x.empty()){ for(char c : y) r.push_back(vi('c', c)); return true; } for(char c : y) if(x.find(c) != std::string::npos){ if(o.size()) r.push_back(vs(o)); o.clear(); } else o += c; if(o.size()) r.push_back(vs(o)); return true; }
	if(f == "join"){ if(n < 2) throw EErr(); std::string sep = a[0].empty() ? "" : sText(a[0][0]), o; L e = cat(a, 1); for(size_t k = 0; k < e.size(); k++){ if(k) o += sep; if(e[k].t == 'c' || e[k].t == 'C'){ if(!e[k].i) throw Skip(); o += (char)e[k].i; } else o += sText(e[k]); } r.push_back(vs(o.c_str())); return true; }
	if(f == "bitand" || f == "bitor"){ if(a[0].empty() || a[1].empty()) throw Soft(); if(!isint(a[0][0].t) || !isint(a[1][0].t)) throw EErr(); if(a[0].size() > 1 || a[1].size() > 1) throw Skip(); static const char *o = "cCuUiIhH"; char t = strchr(o, a[0][0].t) > strchr(o, a[1][0].t) ? a[0][0].t : a[1][0].t; __int128 x = asInt(t, a[0][0]), y = asInt(t, a[1][0]); r.push_back(mkInt(t, f == "bitand" ? x & y : x | y)); return true; }
	{ static const std::map<std::string, char> C{{"float32", 'f'}, {"float64", 'd'}, {"int8", 'c'}, {"char", 'c'}, {"int16", 'u'}, {"int32", 'i'}, {"int64", 'h'}, {"uint8", 'C'}, {"uint16", 'U'}, {"uint32", 'I'}, {"uint64", 'H'}, {"bool", 'T'}, {"string", 's'}};
		auto k = C.find(f); if(k != C.end()){ for(auto &v : a[0]) r.push_back(castV(k->second, v)); return true; } }
	if(f == "blob"){ if(a[0].size() == 1 && a[0][0].t == '.'){ r.push_back(vblob(enc(*a[0][0].b))); return true; } std::string s; for(auto &v : a[0]) s += (char)toI<int8_t>(v); r.push_back(vblob(s)); return true; }
	if(f == "cast"){ if(a[1].empty()) return true; if(a[0].empty() || (a[0].size() > 1 && a[0].size() < a[1].size())) throw Soft(); for(size_t k = 0; k < a[1].size(); k++){ const Val &t = a[0].size() == 1 ? a[0][0] : a[0][k]; int8_t c = toI<int8_t>(t); if(!c || !strchr("cCuUiIhHfds", c)) throw Skip(); r.push_back(castV(c, a[1][k])); } return true; }
	if(f == "hton32" || f == "ntoh32"){ for(auto &v : all){ if(!isint(v.t) || v.t == 'h' || v.t == 'H') throw Skip(); bool u = v.t == 'C' || v.t == 'U' || v.t == 'I'; r.push_back(mkInt(u ? 'I' : 'i', u ? (__int128)__builtin_bswap32((uint32_t)v.i) : (__int128)(int32_t)__builtin_bswap32((uint32_t)v.i))); } return true; }
	if(f == "hton64" || f == "ntoh64"){ for(auto &v : all){ if(!isint(v.t)) throw Skip(); bool u = f == "hton64" || v.t == 'C' || v.t == 'U' || v.t == 'I' || v.t == 'H'; r.push_back(vi(u ? 'H' : 'h', (int64_t)__builtin_bswap64((uint64_t)v.i))); } return true; }
	if(f == "readstring"){ if(a[0].size() != 1 || a[0][0].t != 's') throw EErr(); r = a[0]; return true; }
	if(f == "strtotime"){ if(a[0].size() != 1 || a[0][0].t != 's') throw EErr(); r.push_back(any("t")); return true; }
	if(f == "floattotime"){ if(a[0].size() != 1 || !isflt(a[0][0].t)) throw EErr(); if(!(a[0][0].d >= 0 && a[0][0].d < 4e9)) throw Skip(); r.push_back(vi('t', rdtt(osc_timetag_floatToTimetag(a[0][0].d)))); return true; }
	return false;
}
// an extension of equality: computed doubles may differ in the last bits, wildcards of the reference match
static inline bool near(const L &w, const L &g, double mag){ if(w.size() != g.size()) return false; for(size_t k = 0; k < w.size(); k++){ if(eqw(w[k], g[k])) continue; if(w[k].t == g[k].t && isflt(w[k].t) && fabs(w[k].d - g[k].d) <= (w[k].t == 'f' ? 1e-6 : 1e-12) * std::max(mag, fabs(w[k].d))) continue; return false; } return true; }
