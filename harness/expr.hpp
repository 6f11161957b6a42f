// Reference expression language: lexer, parser (precedence climbing), tree printer, and the bridge to the implementation's tree
#pragma once
#include "ref.hpp"
#include "text.hpp"
extern "C" {
#include "osc_expr.h"
#include "osc_expr_rec.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
t_osc_expr *osc_expr_parser_parseExpr_r(char *ptr, void *context);
t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *context);
}
enum { OSC_EXPR_ARG_TYPE_LIST = 0x2, OSC_EXPR_ARG_TYPE_ATOM = 0x8, OSC_EXPR_ARG_TYPE_EXPR = 0x10, OSC_EXPR_ARG_TYPE_OSCADDRESS = 0x20, OSC_EXPR_ARG_TYPE_FUNCTION = 0x80 };   // as in osc_expr_func.h, which is not valid C++
struct EX; struct EL;
struct EA { char k = 0; Val v; std::string a; std::shared_ptr<EX> e; std::shared_ptr<EL> l; };    // 'v' value, 'a' address, 'e' expression, 'l' lambda
struct EX { std::string fn; std::vector<EA> args; };
struct EL { std::vector<std::string> params; std::vector<EX> body; };
static inline EA av(const Val &v){ EA a; a.k = 'v'; a.v = v; return a; }
static inline EA aa(const std::string &s){ EA a; a.k = 'a'; a.a = s; return a; }
static inline EA ae(const EX &e){ EA a; a.k = 'e'; a.e = std::make_shared<EX>(e); return a; }
static inline EX ex(const std::string &f, const std::vector<EA> &args){ return EX{f, args}; }
static inline std::string str(const EX &e);
static inline std::string str(const EL &l){ std::string o = "{lambda"; for(auto &p : l.params) o += " " + p; o += ":"; for(auto &b : l.body) o += " " + str(b); return o + "}"; }
static inline std::string str(const EA &a){ switch(a.k){ case 'v': return str(a.v); case 'a': return a.a; case 'e': return str(*a.e); case 'l': return str(*a.l); } return "?"; }
static inline std::string str(const EX &e){ std::string o = "(" + e.fn; for(auto &a : e.args) o += " " + str(a); return o + ")"; }
static inline std::string str(const std::vector<EX> &v){ std::string o; for(auto &e : v) o += str(e) + " "; return o; }
// ---- the implementation's tree
static inline EX rdX(t_osc_expr *e);
static inline EA rdA(t_osc_expr_arg *a){
	EA r; switch(osc_expr_arg_getType(a)){
	case OSC_EXPR_ARG_TYPE_ATOM: r.k = 'v'; r.v = rdV(osc_expr_arg_getOSCAtom(a)); break;
	case OSC_EXPR_ARG_TYPE_OSCADDRESS: r.k = 'a'; CHECK(osc_expr_arg_getOSCAddress(a), "address argument without address"); r.a = osc_expr_arg_getOSCAddress(a); break;
	case OSC_EXPR_ARG_TYPE_EXPR: { t_osc_expr *e = osc_expr_arg_getExpr(a); CHECK(e, "empty expression argument"); CHECK(!osc_expr_next(e), "an argument holds two expressions"); r = ae(rdX(e)); break; }
	case OSC_EXPR_ARG_TYPE_FUNCTION: { t_osc_expr_rec *f = osc_expr_arg_getFunction(a); CHECK(f, "empty function argument"); r.k = 'l'; r.l = std::make_shared<EL>(); for(int i = 0; i < osc_expr_rec_getNumRequiredArgs(f); i++) r.l->params.push_back(osc_expr_rec_getRequiredArgsNames(f)[i]); for(t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(f); e; e = osc_expr_next(e)) r.l->body.push_back(rdX(e)); break; }
	default: vc::fail("argument of unknown type %d", osc_expr_arg_getType(a)); }
	return r;
}
static inline EX rdX(t_osc_expr *e){ EX r; t_osc_expr_rec *f = osc_expr_getRec(e); CHECK(f, "expression without function"); r.fn = osc_expr_rec_getName(f); long n = 0; for(t_osc_expr_arg *a = osc_expr_getArgs(e); a; a = osc_expr_arg_next(a), n++) r.args.push_back(rdA(a)); CHECK(n == osc_expr_getArgCount(e), "%s: %ld arguments, counted as %ld", r.fn.c_str(), n, osc_expr_getArgCount(e)); return r; }
static inline std::vector<EX> rdXs(t_osc_expr *e){ std::vector<EX> r; for(; e; e = osc_expr_next(e)) r.push_back(rdX(e)); return r; }
// ---- lexer: longest match, the earlier rule on a tie
struct ETok { std::string k; std::string s; Val v; };   // k: operator text, "NUM", "STR", "ADDR", "LAMBDA", "QUOTE", "BAD"
static inline std::vector<ETok> elex(const std::string &in){
	std::vector<ETok> o; const char *p = in.c_str(), *end = p + in.size();
	static const char *AX = ".+-*%^!=[]:;,?<>&|\\{}() \n\t`", *IX = "'\"+-*/%^!=[]:;,?<>&|\\{}() \n\t`.";
	static const char *OPS[] = {"??=", "<=", ">=", "!=", "==", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=", "??", "[[", "]]", "+", "-", "*", "/", "%", "^", "!", "=", "[", "]", ":", "?", "<", ">", "`", ".", "&", "|", ",", "(", ")", "{", "}"};
	auto sp = [](int c){ return c && strchr(" \t\n\v\f\r", c); };
	while(p < end){
		size_t best = 0; int rule = -1; const char *op = NULL; auto cand = [&](size_t n, int r){ if(n > best){ best = n; rule = r; } };
		if(*p == '#'){ const char *q = p; while(*q && *q != '\n') q++; cand(q - p, 0); }
		for(const char *x : OPS) if(!strncmp(p, x, strlen(x)) && strlen(x) > best){ best = strlen(x); rule = 1; op = x; }
		if(!strncmp(p, "quote", 5)){ const char *q = p + 5; while(sp(*q)) q++; if(*q == '(') cand(q + 1 - p, 2); }
		if(*p == '"') cand(1, 3);
		if(*p >= '1' && *p <= '9'){ const char *q = p; while(tdig(*q)) q++; cand(q - p, 4); } else if(*p == '0') cand(1, 4);
		if(*p == '0' && (p[1] == 'x' || p[1] == 'X') && txdig(p[2])){ const char *q = p + 2; while(txdig(*q)) q++; cand(q - p, 5); }
		if(*p != '-') cand(lexFloat(p), 6);
		if(*p == '\'' && p[1] && p[1] != '\n' && p[2] == '\'') cand(3, 7);
		size_t idl = 0; if(!tdig(*p) && !strchr(IX, *p)){ const char *q = p + 1; while(*q && !strchr(IX, *q)) q++; idl = q - p; }
		{ std::string w(p, idl); if(w == "true" || w == "True" || w == "TRUE") cand(idl, 8); else if(w == "false" || w == "False" || w == "FALSE") cand(idl, 9); else if(w == "nil" || w == "Nil" || w == "NIL") cand(idl, 10); else if(w == "lambda") cand(idl, 11); }
		if(*p == '/' && p[1] && !strchr(AX, p[1])){ const char *q = p + 1; while(*q && !strchr(AX, *q)) q++; cand(q - p, 12); }
		cand(idl, 13);
		if(*p == ';') cand(1, 14);
		{ const char *q = p; while(*q == ' ' || *q == '\t' || *q == '\n') q++; cand(q - p, 15); }
		std::string t(p, best);
		switch(rule){
		case -1: o.push_back(ETok{"BAD", std::string(p, 1), Val()}); return o;
		case 0: case 15: break;
		case 1: o.push_back(ETok{op, t, Val()}); break;
		case 2: { const char *q = p + best, *e = q; int n = 1; while(n && *e){ bool esc = e > p && e[-1] == '\\'; if(*e == ')' && !esc) n--; else if(*e == '(' && !esc) n++; e++; } if(n || e == q){ o.push_back(ETok{"BAD", "", Val()}); return o; } std::string b(q, e - 1 - q); o.push_back(ETok{"QUOTE", b, vs(b)}); best = e - p; break; }
		case 3: { std::string s; const char *e = p + 1; bool ok = false; while(*e){ if(*e == '"'){ ok = true; e++; break; } if(*e == '\\' && (e[1] == '"' || e[1] == '\\')){ s += e[1]; e += 2; } else s += *e++; } if(!ok){ o.push_back(ETok{"BAD", "", Val()}); return o; } o.push_back(ETok{"STR", s, vs(s)}); best = e - p; break; }
		case 4: { Val v = intVal(t); o.push_back(ETok{"NUM", t, v}); break; }
		case 5: o.push_back(ETok{"NUM", t, best > 10 ? vi('H', (int64_t)strtoull(t.c_str(), NULL, 16)) : vi('I', (uint32_t)strtoul(t.c_str(), NULL, 16))}); break;
		case 6: o.push_back(ETok{"NUM", t, vd('d', strtod(t.c_str(), NULL))}); break;
		case 7: o.push_back(ETok{"NUM", t, vi('c', (int8_t)p[1])}); break;
		case 8: o.push_back(ETok{"NUM", t, vt('T')}); break; case 9: o.push_back(ETok{"NUM", t, vt('F')}); break; case 10: o.push_back(ETok{"NUM", t, vt('N')}); break;
		case 11: o.push_back(ETok{"LAMBDA", t, Val()}); break;
		case 12: o.push_back(ETok{"ADDR", t, vs(t)}); break;
		case 13: o.push_back(ETok{"STR", t, vs(t)}); break;
		case 14: o.push_back(ETok{"BAD", t, Val()}); return o;
		}
		p += best;
	}
	return o;
}
static const struct { const char *n; int r, o; } ARITY[] = {{"+", 2, 0}, {"-", 2, 0}, {"*", 2, 0}, {"/", 2, 0}, {"<", 2, 0}, {"<=", 2, 0}, {">", 2, 0}, {">=", 2, 0}, {"==", 2, 0}, {"!=", 2, 0}, {"&", 2, 0}, {"|", 2, 0}, {"&&", 2, 0}, {"||", 2, 0}, {"%", 2, 0}, {"=", 2, 0}, {"++", 1, 0}, {"--", 1, 0}, {"+=", 2, 0}, {"-=", 2, 0}, {"*=", 2, 0}, {"/=", 2, 0}, {"%=", 2, 0}, {"??", 2, 0}, {".", 2, 0}, {"add", 2, 0}, {"sub", 2, 0}, {"mul", 2, 0}, {"div", 2, 0}, {"lt", 2, 0}, {"le", 2, 0}, {"gt", 2, 0}, {"ge", 2, 0}, {"eq", 2, 0}, {"ne", 2, 0}, {"and", 2, 0}, {"or", 2, 0}, {"andalso", 2, 0}, {"orelse", 2, 0}, {"mod", 2, 0}, {"assign", 2, 0}, {"plus1", 1, 0}, {"minus1", 1, 0}, {"abs", 1, 0}, {"acos", 1, 0}, {"asin", 1, 0}, {"atan", 1, 0}, {"atan2", 2, 0}, {"ceil", 1, 0}, {"cos", 1, 0}, {"cosh", 1, 0}, {"exp", 1, 0}, {"floor", 1, 0}, {"fmod", 2, 0}, {"log", 1, 0}, {"log10", 1, 0}, {"pow", 2, 0}, {"sin", 1, 0}, {"sinh", 1, 0}, {"sqrt", 1, 0}, {"tan", 1, 0}, {"tanh", 1, 0}, {"erf", 1, 0}, {"erfc", 1, 0}, {"gamma", 1, 0}, {"hypot", 2, 0}, {"j0", 1, 0}, {"j1", 1, 0}, {"jn", 2, 0}, {"lgamma", 1, 0}, {"y0", 1, 0}, {"y1", 1, 0}, {"yn", 2, 0}, {"acosh", 1, 0}, {"asinh", 1, 0}, {"atanh", 1, 0}, {"cbrt", 1, 0}, {"expm1", 1, 0}, {"ilogb", 1, 0}, {"logb", 1, 0}, {"nextafter", 1, 0}, {"remainder", 2, 0}, {"round", 1, 0}, {"nth", 2, -1}, {"assign_to_index", 3, 0}, {"product", 1, 0}, {"sum", 1, 0}, {"cumsum", 1, 0}, {"length", 1, 0}, {"avg", 1, 0}, {"mean", 1, 0}, {"median", 1, 0}, {"reverse", 1, 0}, {"rev", 1, 0}, {"sort", 1, -1}, {"sortidx", 1, 0}, {"nonzero", 1, 0}, {"list", 0, -1}, {"nfill", 1, 1}, {"aseq", 2, 1}, {"interleave", 2, -1}, {"first", 1, 0}, {"last", 1, 0}, {"rest", 1, 0}, {"butlast", 1, 0}, {"!", 1, 0}, {"not", 1, 0}, {"dot", 2, 0}, {"cross", 2, 0}, {"det", 1, -1}, {"l2norm", 1, 0}, {"min", 1, 0}, {"max", 1, 0}, {"range", 1, 0}, {"extrema", 1, 0}, {"clip", 3, 0}, {"scale", 5, 0}, {"mtof", 1, 1}, {"ftom", 1, 1}, {"sign", 1, 0}, {"if", 2, 1}, {"strlen", 1, 0}, {"strchar", 2, 0}, {"strfind", 2, 0}, {"strcmp", 2, 1}, {"split", 2, 0}, {"join", 2, -1}, {"bound", 1, 0}, {"exists", 1, 0}, {"emptybundle", 0, 1}, {"getaddresses", 0, 1}, {"delete", 1, -1}, {"getmsgcount", 0, 0}, {"identity", 1, 0}, {"eval", 1, 0}, {"tokenize", 1, 0}, {"prog1", 1, -1}, {"prog2", 1, -1}, {"progn", 1, -1}, {"apply", 2, -1}, {"map", 2, -1}, {"lreduce", 2, 1}, {"rreduce", 2, 1}, {"quote", 1, 0}, {"value", 1, 0}, {"lambda", 0, 0}, {"gettimetag", 0, 0}, {"settimetag", 1, 0}, {"getbundlemember", 2, 0}, {"assigntobundlemember", 3, 0}, {"bitand", 2, 0}, {"bitor", 2, 0}, {"pi", 0, 0}, {"twopi", 0, 0}, {"halfpi", 0, 0}, {"quarterpi", 0, 0}, {"oneoverpi", 0, 0}, {"twooverpi", 0, 0}, {"degtorad", 0, 0}, {"radtodeg", 0, 0}, {"e", 0, 0}, {"lntwo", 0, 0}, {"lnten", 0, 0}, {"logtwoe", 0, 0}, {"logtene", 0, 0}, {"sqrttwo", 0, 0}, {"sqrthalf", 0, 0}, {"float32", 1, 0}, {"float64", 1, 0}, {"int8", 1, 0}, {"char", 1, 0}, {"int16", 1, 0}, {"int32", 1, 0}, {"int64", 1, 0}, {"uint8", 1, 0}, {"uint16", 1, 0}, {"uint32", 1, 0}, {"uint64", 1, 0}, {"bool", 1, 0}, {"string", 1, 0}, {"blob", 1, 0}, {"cast", 2, 0}, {"typetags", 1, 0}, {"hton32", 1, 0}, {"ntoh32", 1, 0}, {"hton64", 1, 0}, {"ntoh64", 1, 0}, {"readstring", 1, 0}, {"strtotime", 1, 0}, {"floattotime", 1, 0}, {"match", 2, 0}, {"quickhull", 1, 1}, {"bundle", 0, -1}, {"phi", 0, 0}, {"twelfth_root_of_2", 0, 0}, {"thirteenth_root_of_3", 0, 0}};   // required and optional (-1: any number) arguments
// ---- parser. Levels: 1 assignment (right), 2 ?: (right), 3 | ||, 4 & &&, 5 == !=, 6 < > <= >=, 7 + -, 8 * / %, 9 ^, 10 prefix and ??, 11 indexing and calls
struct EP {
	struct Bad {};
	const std::vector<ETok> &t; size_t i = 0; bool atEnd = false;   // atEnd: the error is only that the text stops
	EP(const std::vector<ETok> &x) : t(x) {}
	const std::string &pk(size_t k = 0){ static const std::string e = ""; return i + k < t.size() ? t[i + k].k : e; }
	[[noreturn]] void bad(){ atEnd = i >= t.size(); throw Bad(); }
	void need(const char *k){ if(pk() != k) bad(); i++; }
	static int arity(const std::string &f, int &opt){ static std::map<std::string, std::pair<int, int>> m; if(m.empty()) for(auto &a : ARITY) m[a.n] = {a.r, a.o}; auto k = m.find(f); if(k != m.end()){ opt = k->second.second; return k->second.first; } t_osc_expr_rec *r = osc_expr_lookupFunction((char *)f.c_str()); if(!r) return -1; opt = osc_expr_rec_getNumOptionalArgs(r); return osc_expr_rec_getNumRequiredArgs(r); }
	std::vector<EA> args(){ std::vector<EA> r; for(;;){ r.push_back(arg(0)); if(pk() != ",") return r; i++; } }
	struct Lv { int l; bool right; const char *fn; };
	static const std::map<std::string, Lv> &ops(){ static const std::map<std::string, Lv> m{{"+=", {1, true, "+"}}, {"-=", {1, true, "-"}}, {"*=", {1, true, "*"}}, {"/=", {1, true, "/"}}, {"%=", {1, true, "%"}}, {"^=", {1, true, "pow"}}, {"?", {2, true, "if"}}, {"|", {3, false, "|"}}, {"||", {3, false, "||"}}, {"&", {4, false, "&"}}, {"&&", {4, false, "&&"}}, {"==", {5, false, "=="}}, {"!=", {5, false, "!="}}, {"<", {6, false, "<"}}, {">", {6, false, ">"}}, {"<=", {6, false, "<="}}, {">=", {6, false, ">="}}, {"+", {7, false, "+"}}, {"-", {7, false, "-"}}, {"*", {8, false, "*"}}, {"/", {8, false, "/"}}, {"%", {8, false, "%"}}, {"^", {9, false, "pow"}}, {"[[", {11, false, "nth"}}}; return m; }
	EA lambda(){
		i++; need("("); EA r; r.k = 'l'; r.l = std::make_shared<EL>();
		if(pk() == "["){ i++; if(pk() != "]") for(;;){ if(pk() != "STR") bad(); r.l->params.push_back(t[i++].s); if(pk() != ",") break; i++; } need("]"); } else { if(pk() != "STR") bad(); r.l->params.push_back(t[i++].s); }
		need(","); for(auto &a : args()) r.l->body.push_back(a.k == 'e' ? *a.e : ex("prog1", {a})); need(")"); return r;
	}
	static EA call(const std::string &f, const std::vector<EA> &a, EP *p){ int opt = 0, req = arity(f, opt), n = a.size(); if(req < 0 || n < req || (opt >= 0 && n > req + opt)) throw Bad(); return ae(ex(f, a)); }
	EA nud(){
		const std::string k = pk(); if(k.empty()) bad();
		if(k == "NUM") return av(t[i++].v);
		if(k == "QUOTE") return ae(ex("quote", {av(t[i++].v)}));
		if(k == "STR"){ ETok s = t[i++];
			if(pk() == "("){ i++; std::vector<EA> a; if(pk() != ")") a = args(); need(")"); return call(s.s, a, this); }
			if(pk() == "."){ i++; if(pk() != "ADDR") bad(); return ae(ex(".", {av(s.v), aa(t[i++].s)})); }
			if(pk() == "++" || pk() == "--"){ i++; need("="); arg(1); throw Bad(); }
			return av(s.v); }
		if(k == "ADDR"){ std::string a = t[i++].s; const std::string n = pk();
			if(n == "("){ i++; std::vector<EA> r{aa(a)}; if(pk() != ")") for(auto &x : args()) r.push_back(x); need(")"); return ae(ex("apply", r)); }
			if(n == "."){ i++; if(pk() != "ADDR") bad(); std::string b = t[i++].s; if(pk() == "="){ i++; EA v = arg(1); return ae(ex("assigntobundlemember", {aa(a), aa(b), v})); } return ae(ex(".", {aa(a), aa(b)})); }
			if(n == "++" || n == "--"){ i++; return ae(ex("prog1", {aa(a), ae(ex("assign", {aa(a), ae(ex(n == "++" ? "plus1" : "minus1", {aa(a)}))}))})); }
			if(n == "="){ i++; EA v = arg(1); return ae(ex("assign", {aa(a), v})); }
			if(n == "??" || n == "??="){ i++; EA v = arg(10); EA e = ae(ex("if", {ae(ex("bound", {aa(a)})), aa(a), v})); return n == "??" ? e : ae(ex("=", {aa(a), e})); }
			if(n == "[["){ i++; EA x = arg(0); std::vector<EA> ix{x};
				if(pk() == ":"){ i++; ix.push_back(arg(0)); if(pk() == ":"){ i++; EA e = arg(0); EA s = ix[1]; ix[1] = e; ix.push_back(s); } need("]]"); need("="); EA v = arg(1); return ae(ex("assign_to_index", {aa(a), ae(ex("aseq", ix)), v})); }
				while(pk() == ","){ i++; ix.push_back(arg(0)); } need("]]");
				if(pk() == "="){ i++; EA v = arg(1); return ae(ex("assign_to_index", {aa(a), ix.size() > 1 ? ae(ex("list", ix)) : ix[0], v})); }
				ix.insert(ix.begin(), aa(a)); return ae(ex("nth", ix)); }
			return aa(a); }
		if(k == "("){ i++; EA a = arg(0); if(a.k == 'l' && pk() == ","){ i++; std::vector<EA> r{a}; for(auto &x : args()) r.push_back(x); need(")"); return ae(ex("apply", r)); } if(a.k != 'e') bad(); need(")"); return a; }
		if(k == "["){ i++; std::vector<EA> a; if(pk() != "]") a = args(); need("]"); return ae(ex("list", a)); }
		if(k == "{"){ i++; std::vector<EA> a; if(pk() != "}") for(;;){ if(pk() != "ADDR") bad(); a.push_back(av(t[i++].v)); need(":"); a.push_back(arg(0)); if(pk() != ",") break; i++; } need("}"); return call("bundle", a, this); }
		if(k == "`"){ i++; EA a; if(pk() == "STR") a = av(t[i].v); else if(pk() == "ADDR") a = aa(t[i].s); else bad(); i++; need("`"); return ae(ex("value", {a})); }
		if(k == "!"){ i++; return ae(ex("!", {arg(10)})); }
		if(k == "-"){ i++; return ae(ex("-", {av(vi('i', 0)), arg(10)})); }
		if(k == "++" || k == "--"){ i++; if(pk() == "STR"){ i++; need("="); arg(1); throw Bad(); } if(pk() != "ADDR") bad(); std::string a = t[i++].s; return ae(ex("assign", {aa(a), ae(ex(k == "++" ? "plus1" : "minus1", {aa(a)}))})); }
		if(k == "LAMBDA") return lambda();
		bad();
	}
	EA arg(int min){
		EA l = nud();
		for(;;){
			auto f = ops().find(pk()); if(f == ops().end()) return l; const Lv &o = f->second; if(o.l < min) return l; i++;
			if(o.l == 11){ std::vector<EA> a{l}; for(auto &x : args()) a.push_back(x); need("]]"); l = call("nth", a, this); continue; }
			if(o.l == 2){ EA a = arg(0); need(":"); EA b = arg(2); l = ae(ex("if", {l, a, b})); continue; }
			EA r = arg(o.right ? o.l : o.l + 1);
			l = o.l == 1 ? ae(ex("assign", {l, ae(ex(o.fn, {l, r}))})) : ae(ex(o.fn, {l, r}));
		}
	}
	bool all(std::vector<EX> &r){
		try{
			if(i >= t.size()) return true;
			for(bool first = true;; first = false){
				if(!first){ if(i >= t.size()) return true; need(","); } else if(pk() == ",") continue;
				EA a = arg(0); bool num = a.k == 'v' && t[i - 1].k == "NUM";
				if(a.k == 'e') r.push_back(*a.e); else if(a.k == 'a' || num) r.push_back(ex("progn", {a})); else bad();
			}
		}catch(Bad &){ return false; }
	}
};
static inline bool refExpr(const std::string &s, std::vector<EX> &r, bool *more = NULL){ auto t = elex(s); EP p(t); bool ok = p.all(r); if(more) *more = ok || p.atEnd; return ok; }
// an expression list that is freed at the end of its scope
struct Expr { t_osc_expr *f = NULL; t_osc_err e; Expr(const std::string &s){ Buf b(s + std::string(1, 0)); e = osc_expr_parser_parseExpr(b.p, &f, NULL); } ~Expr(){ if(f) osc_expr_free(f); } Expr(const Expr &) = delete; };
