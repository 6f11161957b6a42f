// Reference text form: printer, lexer and parser of the bundle notation
#pragma once
#include "ref.hpp"
extern "C" {
t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
t_osc_err osc_legacy_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
}
static inline std::string quoteText(const std::string &s){ std::string o = "\""; for(char c : s){ if(c == '"' || c == '\\') o += '\\'; o += c; } return o + '"'; }
static inline std::string floatText(double d){ std::string g = vc::fmt("%g", d); if(std::fabs(d) < 1000000. && std::floor(d) == d) g += "."; return g; }
static inline std::string txt(const Bndl &b, int in = 0);
static inline std::string isoText(uint64_t t){ char b[64]; osc_timetag_nformat(b, sizeof b, mktt(t)); return b; }   // decided by C17
static inline std::string txt(const Val &v, int in = 0){
	switch(v.t){
	case 'c': case 'C': return std::string("'") + (char)v.i + "'";
	case 'u': case 'U': case 'i': case 'I': case 'h': return vc::fmt("%lld", (long long)v.i);
	case 'H': return vc::fmt("%llu", (unsigned long long)v.i);
	case 'f': return floatText((float)v.d); case 'd': return floatText(v.d);
	case 's': return quoteText(v.s);
	case 'b': { std::string o = "blob("; for(size_t k = 0; k < v.s.size(); k++) o += vc::fmt(k ? ", %d" : "%d", (signed char)v.s[k]); return o + ")"; }
	case 't': return isoText(v.i);
	case 'T': return "true"; case 'F': return "false"; case 'N': return "nil";
	case '.': return "{\n" + txt(*v.b, in + 1) + "\n" + std::string(in * 2, ' ') + "}";
	}
	abort();
}
static inline std::string txt(const Msg &m, int in = 0){
	std::string o = std::string(in * 2, ' ') + m.a; if(m.v.empty()) return o;
	o += m.v.size() > 1 ? " : [" : " : "; for(size_t k = 0; k < m.v.size(); k++) o += (k ? ", " : "") + txt(m.v[k], in); if(m.v.size() > 1) o += "]"; return o;
}
static inline std::string txt(const Bndl &b, int in){ std::string o; for(size_t k = 0; k < b.m.size(); k++) o += (k ? ",\n" : "") + txt(b.m[k], in); return o; }

// ---- reference lexer: longest match, the earlier rule on a tie
#include <regex.h>
struct Tok { char k; std::string s; Val v; };   // 'A' address, 'V' value, one of :{},[] or '!' anything else
static inline bool tdig(int c){ return c >= '0' && c <= '9'; }
static inline bool txdig(int c){ return isxdigit((unsigned char)c) && (unsigned char)c < 128; }
static inline size_t lexFloat(const char *p){   // decimal and hexadecimal floating constants with optional sign and suffix; 0 if none
	const char *q = p; if(*q == '-') q++; size_t best = 0;
	auto suff = [&](const char *e){ if(*e && strchr("flFL", *e)) e++; return (size_t)(e - p); };
	auto exp = [&](const char *e, const char *set) -> const char * { if(!*e || !strchr(set, *e)) return NULL; e++; if(*e == '+' || *e == '-') e++; if(!tdig(*e)) return NULL; while(tdig(*e)) e++; return e; };
	{ const char *e = q; while(tdig(*e)) e++; bool ip = e > q, fp = false, dot = false; const char *i = e; if(*e == '.'){ e++; const char *f = e; while(tdig(*e)) e++; fp = e > f; dot = ip || fp; }
	  if(dot){ const char *x = exp(e, "eE"); best = suff(x ? x : e); } else if(ip){ const char *x = exp(i, "eE"); if(x) best = suff(x); } }
	if(q[0] == '0' && (q[1] == 'x' || q[1] == 'X')){ const char *h = q + 2, *e = h; while(txdig(*e)) e++; bool ip = e > h; bool fp = false; const char *i = e; if(*e == '.'){ e++; const char *f = e; while(txdig(*e)) e++; fp = e > f; if(!ip && !fp) e = i; } if(ip || fp){ const char *x = exp(e, "pP"); if(x) best = std::max(best, suff(x)); } }
	return best;
}
static inline size_t lexISO(const char *p){
	static regex_t re; static bool init = false; if(!init){ init = true; if(regcomp(&re, "^(-?([1-9][0-9]*)?[0-9]{4})-(1[0-2]|0[1-9])-(3[0-1]|0[1-9]|[1-2][0-9])?T(2[0-3]|[0-1][0-9]):([0-5][0-9]):([0-5][0-9])(\\.[0-9]+)?(Z|[+-](2[0-3]|[0-1][0-9]):[0-5][0-9])?", REG_EXTENDED)) abort(); }
	if((!tdig(*p) && *p != '-') || !strchr(p, 'T')) return 0; regmatch_t m; if(regexec(&re, p, 1, &m, 0)) return 0; return m.rm_eo;
}
static inline Val intVal(const std::string &s){ if(s[0] != '-'){ unsigned long long u = strtoull(s.c_str(), NULL, 10); if(u > (unsigned long long)INT64_MAX) return vi('H', (int64_t)u); } long long x = strtoll(s.c_str(), NULL, 10); return vi(x >= INT32_MIN && x <= INT32_MAX ? 'i' : 'h', x); }
static inline std::vector<Tok> lexText(const std::string &in){
	std::vector<Tok> o; const char *p = in.c_str(), *end = p + in.size();
	auto val = [&](const Val &v, size_t n){ o.push_back(Tok{'V', std::string(p, n), v}); p += n; };
	while(p < end){
		if(*p == ' ' || *p == '\t' || *p == '\n'){ p++; continue; }
		if(*p == '"'){ std::string s; const char *e = p + 1; bool ok = false; while(*e){ if(*e == '"'){ ok = true; e++; break; } if(*e == '\\'){ if(!e[1]) break; s += e[1]; e += 2; } else s += *e++; } if(!ok){ o.push_back(Tok{'!', "", Val()}); return o; } Val v = vs(s); val(v, e - p); continue; }
		if(strchr(":{},[]", *p)){ o.push_back(Tok{*p, std::string(1, *p), Val()}); p++; continue; }
		size_t best = 0; int rule = 0; auto cand = [&](size_t n, int r){ if(n > best){ best = n; rule = r; } };
		cand(lexFloat(p), 1); if(!strncmp(p, "true", 4)) cand(4, 2); if(!strncmp(p, "false", 5)) cand(5, 3); if(!strncmp(p, "nil", 3)) cand(3, 4);
		if(*p == '\'' && p[1] && p[1] != '\n' && p[2] == '\'') cand(3, 5);
		{ const char *q = p; if(*q == '-') q++; if(*q >= '1' && *q <= '9'){ while(tdig(*q)) q++; cand(q - p, 6); } else if(*p == '0') cand(1, 6); }
		if(*p == '0' && (p[1] == 'x' || p[1] == 'X') && txdig(p[2])){ const char *q = p + 2; while(txdig(*q)) q++; cand(q - p, 7); }
		if(*p == '/' && p[1] && !strchr(" \t\n#", p[1])){ const char *q = p + 1; while(*q && !strchr(" \t\n#", *q)) q++; cand(q - p, 8); }
		cand(lexISO(p), 9);
		std::string t(p, best);
		switch(rule){
		case 0: o.push_back(Tok{'!', std::string(p, 1), Val()}); return o;
		case 1: val(vd('d', strtod(t.c_str(), NULL)), best); break;
		case 2: val(vt('T'), 4); break; case 3: val(vt('F'), 5); break; case 4: val(vt('N'), 3); break;
		case 5: val(vi('c', (int8_t)p[1]), 3); break;
		case 6: val(intVal(t), best); break;
		case 7: val(best > 10 ? vi('H', (int64_t)strtoull(t.c_str(), NULL, 16)) : vi('I', (uint32_t)strtoul(t.c_str(), NULL, 16)), best); break;
		case 8: if(t.back() == ','){ t.pop_back(); } o.push_back(Tok{'A', t, vs(t)}); p += t.size(); break;
		case 9: { t_osc_timetag tt; osc_timetag_fromISO8601(&t[0], &tt); val(vi('t', (int64_t)rdtt(tt)), best); break; }
		}
	}
	return o;
}
// ---- reference parser: false when the text is not in the language
struct TP { const std::vector<Tok> &t; size_t i = 0; TP(const std::vector<Tok> &x) : t(x) {}
	char pk(){ return i < t.size() ? t[i].k : 0; }
	bool datum(Val &v){ if(pk() == 'A' || pk() == 'V'){ v = t[i++].v; return true; } if(pk() == '{'){ i++; Bndl b; if(pk() != '}'){ if(!messages(b)) return false; } if(pk() != '}') return false; i++; v = vb(b); return true; } return false; }
	bool message(Msg &m){ if(pk() != 'A') return false; m.a = t[i++].s; if(pk() != ':') return true; i++; if(pk() == '['){ i++; for(;;){ Val v; if(!datum(v)) return false; m.v.push_back(v); if(pk() == ','){ i++; continue; } if(pk() == ']'){ i++; return true; } return false; } } Val v; if(!datum(v)) return false; m.v.push_back(v); return true; }
	bool messages(Bndl &b){ for(;;){ Msg m; if(!message(m)) return false; b.m.push_back(m); if(pk() != ',') return true; i++; } }
	bool all(Bndl &b){ return messages(b) && i == t.size(); } };
static inline bool refText(const std::string &s, Bndl &b){ auto t = lexText(s); return TP(t).all(b); }
