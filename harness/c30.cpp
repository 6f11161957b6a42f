// C30: the catalogue of functions, and expressions printed as text
#include "expr.hpp"
#include "match.hpp"
#include "forms.hpp"
const char *PROP = "C30";
static int LT(){ return vc::tier ? 7 : 5; }
static int LP(){ return vc::tier ? 4 : 3; }
std::string bounds(){ return vc::fmt("the documentation of every function; printing every form of statement with simple operands and with each operand replaced by every form; every proper prefix, extension, change of case and one-character edit of every name as an unknown name, and all names of up to %d characters over 24; every prefix of every category with every one of 40 endings, all category patterns of up to %d characters over 9 pieces, category names of up to 600 characters; all sets of argument types; the text of all expressions of up to %d tokens over 18, and of expressions whose text has any length to 1400, into buffers of the caller's and of the library's", vc::tier ? 4 : 3, LP(), LT()); }
static const std::map<std::string, std::pair<int, int>> &arity(){ static std::map<std::string, std::pair<int, int>> m; if(m.empty()) for(auto &a : ARITY) m[a.n] = {a.r, a.o}; return m; }
void warmup(){ long n = 0; char *p = NULL; osc_expr_getFunctionsForCategory((char *)"/core", &n, &p); if(p) osc_mem_free(p); osc_expr_getCategories(); }
// ---- documentation
static const struct { int bit; const char *n; } TY[] = {{1, "number"}, {2, "list"}, {4, "string"}, {8, "atom"}, {0x10, "expression"}, {0x20, "OSC address"}, {0x40, "boolean"}, {0x80, "function"}, {0x100, "timetag"}};
static std::string types(int t){ std::string o; for(auto &x : TY) if(t & x.bit) o += (o.empty() ? "" : ", ") + std::string(x.n); return o; }
static Bndl doc(const std::string &fn){ Buf t(fn + std::string(1, 0)); t_osc_bndl_u *b = NULL; t_osc_err e = osc_expr_getDocForFunction(t.p, &b); vc::trans(); CHECK(e == OSC_ERR_NONE && b, "%s has no documentation", fn.c_str()); Bndl r = rdB(b); osc_bundle_u_free(b); return r; }
static std::set<std::string> categories(const std::string &fn){ std::set<std::string> r; Bndl d = doc(fn); for(auto &m : d.m) if(m.a == "/doc/function/categories") for(auto &v : m.v) r.insert(v.s); return r; }
static void documented(const std::string &fn, int req, int opt){
	Bndl d = doc(fn); size_t k = 0; auto next = [&](const char *a) -> const std::vector<Val> & { CHECK(k < d.m.size() && d.m[k].a == a, "%s: %s is missing", fn.c_str(), a); return d.m[k++].v; };
	auto one = [&](const char *a){ auto &v = next(a); CHECK(v.size() == 1 && v[0].t == 's', "%s: %s is not one string", fn.c_str(), a); return v[0].s; };
	auto num = [&](const char *a){ auto &v = next(a); CHECK(v.size() == 1 && v[0].t == 'i', "%s: %s is not one integer", fn.c_str(), a); return (int)v[0].i; };
	CHECK(one("/doc/function/name") == fn, "%s is documented as another function", fn.c_str());
	one("/doc/function/signature"); one("/doc/function/docstring");
	int r = num("/doc/function/num_required_args"), o = num("/doc/function/num_optional_args"); CHECK(r == req && o == opt, "%s: documented with %d and %d arguments, it takes %d and %d", fn.c_str(), r, o, req, opt);
	t_osc_expr_rec *rec = osc_expr_lookupFunction((char *)fn.c_str()); CHECK(rec, "%s is not found", fn.c_str());
	for(int w = 0; w < 2; w++){ char **nm = w ? osc_expr_rec_getOptionalArgsNames(rec) : osc_expr_rec_getRequiredArgsNames(rec); int *ty = w ? osc_expr_rec_getOptionalArgsTypes(rec) : osc_expr_rec_getRequiredArgsTypes(rec);
		for(int i = 0; i < (w ? abs(opt) : req); i++) if(nm && nm[i]){ std::string p = vc::fmt("/doc/function/arg/%s/", w ? "optional" : "required"); CHECK(one((p + vc::fmt("name/%d", i + 1)).c_str()) == nm[i] && *nm[i], "%s: name of argument %d", fn.c_str(), i + 1); std::string t = one((p + vc::fmt("types/%d", i + 1)).c_str()); CHECK(t == types(ty[i]) && !t.empty(), "%s: argument %d has the types %s, documented as %s", fn.c_str(), i + 1, types(ty[i]).c_str(), t.c_str()); } }
	auto &c = next("/doc/function/categories"); CHECK(!c.empty(), "%s is in no category", fn.c_str()); std::set<std::string> s; for(auto &v : c){ CHECK(v.t == 's' && v.s.size() > 1 && v.s[0] == '/', "%s: strange category", fn.c_str()); CHECK(s.insert(v.s).second, "%s is twice in %s", fn.c_str(), v.s.c_str()); }
	CHECK(k == d.m.size(), "%s: more documentation than expected", fn.c_str()); vc::state(fn);
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static void unknown(const std::string &fn){
	Buf t(fn + std::string(1, 0)); t_osc_bndl_u *mark = (t_osc_bndl_u *)&t, *b = mark; t_osc_err e = osc_expr_getDocForFunction(t.p, &b); vc::trans(); bool known = arity().count(fn);
	if(known){ CHECK(e == OSC_ERR_NONE && b && b != mark, "%s is not documented", fn.c_str()); osc_bundle_u_free(b); } else CHECK(e == OSC_ERR_EXPR_FUNCTIONNOTFOUND && b == mark, "%s is not a function, but has documentation", vc::q(fn).c_str());
	t_osc_expr_rec *r = osc_expr_lookupFunction(t.p); CHECK(!!r == known, "looking up %s", vc::q(fn).c_str()); if(r) CHECK(fn == osc_expr_rec_getName(r), "looking up %s finds %s", fn.c_str(), osc_expr_rec_getName(r));
	CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
}
// ---- categories
static std::string catname(const std::string &f){ static const std::map<std::string, std::string> m{{"+", "add"}, {"-", "sub"}, {"*", "mul"}, {"/", "div"}, {"%", "mod"}, {"++", "inc"}, {"--", "dec"}, {"+=", "addassign"}, {"-=", "subassign"}, {"*=", "mulassign"}, {"/=", "divassign"}, {"%=", "modassign"}}; auto k = m.find(f); return k == m.end() ? f : k->second; }
static const std::vector<std::pair<std::string, std::string>> &table(){ static std::vector<std::pair<std::string, std::string>> t; if(t.empty()){ std::vector<std::pair<std::string, std::string>> n; for(auto &a : arity()) for(auto &c : categories(a.first)) n.push_back({"/doc/category" + c + "/" + catname(a.first), a.first}); t = n; } return t; }
static void category(const std::string &c){
	Buf t(c + std::string(1, 0)); char mark, *p = &mark; long n = -77; t_osc_err e = osc_expr_getFunctionsForCategory(t.p, &n, &p); vc::trans(); CHECK(e == OSC_ERR_NONE, "%s gives error %lu", vc::q(c).c_str(), (unsigned long)e);
	std::string q = c.compare(0, 13, "/doc/category") ? "/doc/category" + c : c; std::multiset<std::string> w, must; Pat pat = parsePat(q);
	for(auto &x : table()){ MRes m = refMatch(pat, parts(x.first)); std::string k = x.first + " " + x.second; bool hit = m.r != 0; if(hit) w.insert(k); if(hit && !m.either && !m.mayerr) must.insert(k); }
	std::multiset<std::string> g; if(n != -77){ CHECK(p != &mark, "a length without functions"); Bndl b; t_osc_bndl_u *bu = osc_bundle_s_deserialize(n, p); CHECK(bu, "the functions of %s are not a bundle", vc::q(c).c_str()); b = rdB(bu); osc_bundle_u_free(bu); osc_mem_free(p); for(auto &m : b.m){ CHECK(m.v.size() == 1 && m.v[0].t == 's', "%s does not hold a function", m.a.c_str()); g.insert(m.a + " " + m.v[0].s); } }
	else CHECK(p == &mark, "functions without a length");
	for(auto &x : g) CHECK(w.count(x) >= g.count(x), "%s is listed for category %s", x.c_str(), vc::q(c).c_str()); for(auto &x : must) CHECK(g.count(x) >= 1, "%s is not listed for category %s", x.c_str(), vc::q(c).c_str());
	vc::count(g.empty() ? "empty categories" : "categories with functions"); vc::state(q);
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
// ---- expressions as text
static std::string show(const EX &e);
static std::string show(const EA &a){ switch(a.k){ case 'v': return txt(a.v) + " "; case 'a': return a.a + " "; case 'e': return show(*a.e); default: { std::string o = "(lambda ("; for(size_t i = 0; i < a.l->params.size(); i++) o += a.l->params[i] + (i + 1 < a.l->params.size() ? ", " : ") "); for(auto &b : a.l->body) o += show(b); return o + ") "; } } }
static std::string show(const EX &e){ std::string o = "(" + e.fn + " "; for(auto &a : e.args) o += show(a); o.pop_back(); return o + ") "; }
static bool printed(const std::string &s){
	std::vector<EX> r; bool more = false; if(!refExpr(s, r, &more)) return more;
	Expr x(s); CHECK(x.e == OSC_ERR_NONE, "%s does not parse", vc::q(s).c_str()); std::string want; for(auto &e : r) want += show(e) + "\n";
	for(int own = 0; own < 3; own++){ long n = -1; char *t = own ? (char *)osc_mem_alloc(own == 1 ? 1 : want.size() + 600) : NULL; osc_expr_format(x.f, &n, &t); vc::trans(); CHECK(t, "%s: no text", vc::q(s).c_str()); std::string g(t, n < 0 ? 0 : n); CHECK(n == (long)want.size() && g == want && !t[n], "%s prints as %s, want %s", vc::q(s).c_str(), vc::q(g).c_str(), vc::q(want).c_str()); osc_mem_free(t); }
	vc::state(want); vc::count("expressions printed"); return more;
}
void explore(){
	for(auto &a : arity()) CASE("documentation of " + a.first, { documented(a.first, a.second.first, a.second.second); });
	static const char ed[] = "aesti_/+-=0 A"; 
	for(auto &a : arity()) CASE("names near " + a.first, {
		const std::string &f = a.first; for(size_t k = 0; k <= f.size(); k++){ unknown(f.substr(0, k)); unknown(f.substr(k)); for(const char *c = ed; *c; c++){ std::string s = f; s.insert(k, 1, *c); unknown(s); if(k < f.size()){ s = f; s[k] = *c; unknown(s); s = f; s[k] = toupper(s[k]); unknown(s); s = f; s.erase(k, 1); unknown(s); } } } });
	static const char al[] = "abdeilmnoprstx+-*/=<&.1?"; for(const char *c = al; *c; c++) CASE(vc::fmt("names from %c", *c), { std::string s(1, *c); std::function<void()> g = [&]{ unknown(s); if((int)s.size() < (vc::tier ? 4 : 3)) for(const char *d = al; *d; d++){ s += *d; g(); s.pop_back(); } }; g(); });
	CASE("no name", { t_osc_bndl_u *b = NULL; unknown(""); CHECK(osc_expr_formatFunctionDoc(NULL, &b) == OSC_ERR_EXPR_FUNCTIONNOTFOUND && !b, "the documentation of nothing"); long n; char *p; CHECK(osc_expr_getFunctionsForCategory(NULL, &n, &p) == OSC_ERR_INVAL, "the functions of no category"); });
	CASE("the list of categories", { std::set<std::string> w, g; for(auto &a : arity()) for(auto &c : categories(a.first)) w.insert("/doc/category/list" + c);
		t_osc_bndl_s *s = osc_expr_getCategories(); CHECK(s, "no list"); t_osc_bndl_u *u = osc_bundle_s_deserialize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)); Bndl b = rdB(u); osc_bundle_u_free(u); for(auto &m : b.m){ CHECK(m.v.empty(), "a category with values"); CHECK(g.insert(m.a).second, "%s is listed twice", m.a.c_str()); }
		for(auto &x : w) CHECK(g.count(x), "functions are in %s, which is not listed", x.c_str()); for(auto &x : g) CHECK(w.count(x), "no function is in %s", x.c_str()); CHECK(osc_expr_getCategories() == s, "another list"); });
	CASE("all functions are in the catalogue", { category("/doc/category"); category("/*"); category("/*/*"); category("/*/*/*"); category("/*/*/*/*"); category(""); category("/");
		size_t n = 0; for(const char *c : {"/*/*", "/*/*/*", "/*/*/*/*"}){ Buf t(std::string(c) + std::string(1, 0)); long len = 0; char *p = NULL; osc_expr_getFunctionsForCategory(t.p, &len, &p); if(p){ t_osc_bndl_u *u = osc_bundle_s_deserialize(len, p); Bndl b = rdB(u); for(auto &m : b.m){ CHECK(arity().count(m.v[0].s), "%s is catalogued but unknown", m.v[0].s.c_str()); n++; } osc_bundle_u_free(u); osc_mem_free(p); } } });
	std::set<std::string> cats{"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/bitwise", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
	for(auto &c : cats) CASE("category " + c, { for(size_t k = 0; k <= c.size(); k++) for(const char *e : {"", "/", "*", "/*", "?", "x", "/sin", "/add", "/+", "/mod", "/list", "/s*", "/[a-m]*", "/{add,sub,if}", "/map", "/*/*", "/nosuch", "{,x}", "[", "{", "]", " ", "#"}){ category(c.substr(0, k) + e); category("/doc/category" + c.substr(0, k) + e); } });
	{ static const char *P[] = {"/", "math", "operator", "*", "core", "arithmetic", "?", "{vector,core}", "/s*"}; std::function<void(const std::string &, int)> g = [&](const std::string &s, int n){ category(s); if(n < LP()) for(auto *p : P) g(s + p, n + 1); }; for(auto *p : P) for(auto *q : P) CASE(vc::fmt("category patterns %s%s...", p, q), { g(std::string(p) + q, 2); }); for(auto *p : P) CASE(vc::fmt("category pattern %s", p), { category(p); }); }
	CASE("long category names", { for(int n = 1; n <= 600; n += n < 150 ? 1 : 37) for(const char *pf : {"/", "", "/doc/category/", "/core/", "/math/"}){ category(pf + std::string(n, 'x')); category(pf + std::string(n, '*')); } });
	CASE("sets of argument types", { for(int t = 0; t < 0x400; t++){ std::string w = types(t); Buf b(w.size() + 1); osc_expr_formatTypes(t, b.p); vc::trans(); CHECK(w == b.p, "types %x are %s, want %s", t, vc::q(b.p).c_str(), vc::q(w).c_str()); } osc_expr_formatTypes(1, NULL); });
	{ static const std::vector<std::string> T{"/a", "1", "2.5", "x", "\"q\\\"\"", "sin(", "list(", "(", ")", "[", "]", "[[", "]]", ",", "=", "lambda([a, b],", "+", "-"}; std::function<void(const std::string &, int)> g = [&](const std::string &s, int n){ if(!printed(s) || n == LT()) return; for(auto &x : T) g(s + " " + x, n + 1); };
		for(auto &a : T) for(auto &b : T) CASE("expressions " + a + " " + b + " ...", { if(&b == &T[0]) printed(a); std::vector<EX> r; bool more = false; refExpr(a, r, &more); if(more) g(a + " " + b, 2); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); }); }
	for(int k = 0; k < 8; k++) CASE(vc::fmt("long expressions, kind %d", k), { for(int n = 1; n <= 1400; n += vc::tier ? 1 : n < 20 || (n % 256) > 236 || (n % 256) < 6 ? 1 : 7){ std::string s; auto rep = [&](const char *a, int c){ for(int i = 0; i < c; i++) s += a; };
		switch(k){ case 0: s = "/" + std::string(n, 'a'); break; case 1: s = "/a = \"" + std::string(n, '"' == 0 ? 'x' : 'y') + "\""; break; case 2: s = "/a = \""; rep("\\\"", n / 2); s += "\""; break; case 3: s = "[1"; rep(", 2", n / 2); s += "]"; break; case 4: rep("/a, ", n / 8); s += "/b"; break; case 5: s = "map(lambda([" + std::string(n, 'p') + ", q], q + 1), /l)"; break; case 6: s = "1"; rep(" + /a", n / 8); break; case 7: rep("/x = 1, ", n / 16); s += "/" + std::string(n, 'z'); break; }
		printed(s); } CHECK(vc::live() == 0, "%ld blocks remain", vc::live()); });
	{ static const std::vector<std::string> any{"/x", "1", "-2.5", "\"q\"", "[7, 2]", "p", "nil"}, few{"/x", "1"}, one{"/x"}, addr{"/x", "/b/c"}, addr1{"/y"}; auto with = [](std::vector<std::string> v){ v.insert(v.begin(), "a"); return v; };
		static std::vector<std::string> C; for(auto &t : T1) fills(t, one, addr1, {"a"}, [&](const std::string &s){ C.push_back("(" + s + ")"); });
		for(auto &t : T1) CASE("printing " + t, { fills(t, holes(t) > 3 ? few : any, addr, with(few), [&](const std::string &s){ printed(s); });
			for(size_t h = 0; h < holes(t); h++) if(kind(t, h) != '#') for(auto &c : C){ std::string u; size_t q = 0; for(char d : t) if((d == '%' || d == '#' || d == '~') && q++ == h) u += c; else u += d; fills(u, vc::tier ? few : one, addr1, with(one), [&](const std::string &s){ printed(s); printed(s + ", " + c); }); }
			CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); }); }
	CASE("no expression", { long n = -1; char *t = NULL; osc_expr_format(NULL, &n, &t); CHECK(n == 0, "%ld characters for no expression", n); if(t) osc_mem_free(t); });
	CASE("no table of compiled functions", { long n = -1; char *t = NULL; osc_expr_formatFunctionTable(&n, &t); CHECK(n == 0, "%ld characters", n); if(t) osc_mem_free(t); });
}
