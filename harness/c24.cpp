// C24: histories of statements against the reference interpreter
#include "stmts.hpp"
#include "forms.hpp"
#include <functional>
const char *PROP = "C24";
static int depth(){ return vc::tier ? 4 : 3; }
std::string bounds(){ std::string s; for(auto &t : themes()) s += vc::fmt("%s%zu %s", s.size() ? ", " : "", t.st.size(), t.name); return vc::fmt("every sequence of up to %d statements out of each of %zu sets (%s), from %zu start bundles; states explored once; every statement also in bundles of 150..400 further messages before, after and between; ten ways of growing messages, lists, texts and nesting statement by statement to up to %d; statements with up to 200 indexes, items, parameters, lists and levels", depth(), themes().size(), s.c_str(), starts().size(), vc::tier ? 600 : 300); }
void warmup(){}
struct St { Bndl b; std::string by; };
static bool step(const std::string &text, t_osc_expr *f, const EX &x, const St &s, St &next, const std::string &hist){
	Bndl b = s.b; Run r(b); L w; int kind = 0; try{ w = r.eval(x, NULL); }catch(EErr &){ kind = 1; }catch(Huge &){ vc::count("lists of more than 20000 items, not run"); return false; }catch(Skip &){ kind = 2; }catch(Soft &){ kind = 2; }
	long live0 = vc::live(), er = vc::errors_reported; Got g = evalOn(f, s.by);
	auto where = [&]{ return hist + text + " on " + str(s.b); };
	CHECK(vc::live() == live0, "%s: %ld blocks remain: %s", where().c_str(), vc::live() - live0, vc::live_desc().c_str());
	Bndl d; CHECK(dec(g.b.data(), g.b.size(), d), "%s leaves a bundle that is not well formed: %s", where().c_str(), vc::hex(g.b.data(), g.b.size()).c_str());
	vc::count(kind == 0 ? "values" : kind == 1 ? "errors" : "unspecified");
	if(kind == 2) return false;
	std::string by = enc(b);
	CHECK(g.b == by, "%s leaves %s, want %s", where().c_str(), str(d).c_str(), str(b).c_str());
	if(kind == 1){ CHECK(g.e || vc::errors_reported > er, "%s gives %s instead of an error", where().c_str(), str(g.v).c_str()); }
	else { CHECK(!g.e, "%s is an error, want %s", where().c_str(), str(w).c_str()); CHECK(eqw(w, g.v), "%s gives %s, want %s", where().c_str(), str(g.v).c_str(), str(w).c_str()); }
	next.b = b; next.by = by; return true;
}
static void statement(const std::string &text, const std::vector<St> &from){
	Expr f(text); std::vector<EX> x; bool ok = refExpr(text, x) && x.size() == 1; CHECK(!!f.f == ok, "%s is %saccepted", text.c_str(), f.f ? "" : "not "); if(!ok){ vc::count("not accepted"); return; }
	for(auto &s : from){ St n; step(text, f.f, x[0], s, n, ""); } vc::state(text);
}
static void composed(){
	std::vector<St> from; for(auto &b : starts()) if(b.m.size()) from.push_back({b, enc(b)});
	const std::vector<std::string> leaves{"/x", "/y", "/nope", "1", "2.5", "0", "true", "false", "\"/y\"", "[7, 2, 10]", "nil", "/b", "/c", "/l", "[]"}, addr{"/x", "/nope", "/b", "/l"}, small{"/x", "/nope", "1", "[7, 2, 10]"}, saddr{"/x", "/y"}, tiny{"/x", "1"}; 
	auto with = [](std::vector<std::string> v){ v.push_back("a"); return v; };
	std::vector<std::string> T; for(auto &t : T1){ std::vector<std::string> a(holes(t), "/x"); std::vector<EX> x; if(refExpr(fill(t, a), x)) T.push_back(t); }
	for(auto &t : T){ auto lv = holes(t) > 3 ? std::vector<std::string>{"/x", "/nope", "1", "0", "[7, 2, 10]", "2"} : leaves; for(auto &first : kind(t, 0) == '#' ? addr : lv){ std::string u; bool f1 = true; for(char c : t) if(f1 && (c == '%' || c == '#' || c == '~')){ u += first; f1 = false; } else u += c; CASE(t + " of simple operands from " + first, { fills(u, lv, addr, with(lv), [&](const std::string &s){ statement(s, from); }); }); } }
	std::vector<std::string> C1, C1a; for(auto &t : T){ fills(t, small, saddr, with(small), [&](const std::string &s){ C1.push_back("(" + s + ")"); }); fills(t, with(tiny), saddr, with(tiny), [&](const std::string &s){ if(s.find('a') != std::string::npos) C1a.push_back("(" + s + ")"); }); }
	for(auto &t : T) for(size_t h = 0; h < holes(t); h++){ char c = kind(t, h); if(c == '#') continue; const auto &C = c == '~' ? C1a : C1; size_t B = vc::tier ? 100 : 400;
		for(size_t k0 = 0; k0 < C.size(); k0 += B) CASE(vc::fmt("%s with operand %zu composed, from %zu", t.c_str(), h, k0), { for(size_t k = k0; k < std::min(C.size(), k0 + B); k++){ std::string u; size_t q = 0; for(char d : t) if(d == '%' || d == '#' || d == '~'){ if(q++ == h) u += C[k]; else u += d; } else u += d; fills(u, vc::tier ? small : tiny, saddr, vc::tier ? with(small) : with(tiny), [&](const std::string &s){ statement(s, from); }); } }); }
}
// functions applied to every list
static void overLists(){
	static const char *F2[] = {"\"-\"", "lambda([a, b], a - b * 3)", "lambda([a, b], b)", "lambda([a, b], [b, a])", "lambda([a, b], /x = /x * 10 + a, a)", "lambda([a, b], a + \"-\" + b)", "\"<\"", "lambda([a, b], if(a > b, a, b))", "lambda([a, b], nth(/l, a - a) + b)"};
	static const char *F1[] = {"\"length\"", "lambda([a], a * a)", "lambda([a], [a, -a])", "lambda([a], /x = /x * 10 + a)", "lambda([a], if(a > 4, a))", "lambda([a], \"<\" + a)", "lambda([a], map(lambda([b], a - b), /l))", "lambda([b], lreduce(lambda([a, c], a * 3 - c), /l, b))", "lambda([a], {/k : a})"};
	std::vector<Val> pool{vi('i', 7), vi('i', 2), vi('h', 40), vd('d', -3), vs("s"), vt('T')}; if(vc::tier) pool.push_back(vi('i', 0)), pool.push_back(vt('N'));
	int M = vc::tier ? 5 : 4; auto lists = [&](int m, const std::function<void(const L &)> &f){ L l; std::function<void()> go = [&]{ f(l); if((int)l.size() < m) for(auto &v : pool){ l.push_back(v); go(); l.pop_back(); } }; go(); };
	struct Tm { std::string t; int n; }; std::vector<Tm> TM; for(auto f : F2){ TM.push_back({vc::fmt("lreduce(%s, /p)", f), 1}); TM.push_back({vc::fmt("rreduce(%s, /p)", f), 1}); TM.push_back({vc::fmt("lreduce(%s, /p, /q)", f), 2}); TM.push_back({vc::fmt("rreduce(%s, /p, /q)", f), 2}); TM.push_back({vc::fmt("map(%s, /p, /q)", f), 2}); TM.push_back({vc::fmt("apply(%s, /p, /q)", f), 2}); }
	for(auto f : F1){ TM.push_back({vc::fmt("map(%s, /p)", f), 1}); TM.push_back({vc::fmt("apply(%s, /p)", f), 1}); TM.push_back({vc::fmt("map(%s, reverse(/p))", f), 1}); }
	for(auto &tm : TM) CASE(tm.t + " of every list", { Expr f(tm.t); std::vector<EX> x; CHECK(f.f && refExpr(tm.t, x) && x.size() == 1, "not accepted");
		lists(tm.n == 1 ? M : M - 2, [&](const L &p){ lists(tm.n == 1 ? 0 : 2, [&](const L &q){ Bndl b{1, {Msg{"/x", {vi('i', 1)}}, Msg{"/p", p}, Msg{"/q", q}, Msg{"/l", {vi('i', 3), vi('i', 11)}}}}; St s{b, enc(b)}, n; step(tm.t, f.f, x[0], s, n, ""); vc::state(tm.t + str(p) + str(q)); }); }); });
}
// every statement of every set in a large bundle, around the messages it is about; bundles and lists growing statement by statement
static void large(){
	auto S = starts(); for(auto &t : themes()) for(size_t si = 0; si < S.size(); si++) for(int where = 0; where < 3; where++) CASE(vc::fmt("%s in a large bundle, start %zu, place %d", t.name, si, where), {
		Bndl b; b.tt = S[si].tt; auto pad = [&](int from, int n){ for(int k = from; k < from + n; k++) b.m.push_back(Msg{vc::fmt("/pad%d", k), k % 3 == 0 ? std::vector<Val>{} : k % 3 == 1 ? std::vector<Val>{vi('i', k), vs(std::string(k % 50, 'p'))} : std::vector<Val>{vblob(std::string(k % 90, 'b'))}}); };
		size_t half = S[si].m.size() / 2; if(where != 0) pad(0, 150); for(size_t k = 0; k < S[si].m.size(); k++){ if(where == 2 && k == half) pad(200, 100); b.m.push_back(S[si].m[k]); } if(where != 1) pad(400, 150); St s{b, enc(b)};
		for(auto &x : t.st){ Expr f(x); std::vector<EX> e; CHECK(f.f && refExpr(x, e) && e.size() == 1, "%s", x.c_str()); St n, n2; if(step(x, f.f, e[0], s, n, "")) step(x, f.f, e[0], n, n2, x + "; "); vc::state(x); } });
	struct G { const char *name, *st; int max; } static const GR[] = {{"new messages", "/new%1$d = %2$d", 300}, {"new messages of texts", "/new%1$d = [\"text\", %2$d, /x]", 150}, {"a list at its end", "/l = [/l, %2$d]", 300}, {"a list at its start", "/l = [%2$d, /l]", 300}, {"one more nested", "/n = {/in : /n, /k : %2$d}", 60}, {"a text", "/t = /t + \"%2$d\"", 100}, {"an element", "/l[[%1$d]] = %2$d", 60}, {"deleted ones", "/new%1$d = %2$d, delete(/new%1$d)", 60}, {"an old one", "/x = /x + %2$d, /y = [%2$d, /y]", 200}, {"a binding", "/q = map(lambda([a], a + %2$d), [/q, %2$d])", 120}};
	for(auto &g : GR) CASE(vc::fmt("growing: %s", g.name), { Bndl b{0, {Msg{"/x", {vi('i', 1)}}, Msg{"/l", {vi('i', 5)}}, Msg{"/n", {}}, Msg{"/t", {vs("t")}}, Msg{"/y", {vd('d', .5)}}, Msg{"/q", {vi('i', 0)}}, Msg{"/end", {vs("end")}}}}; St s{b, enc(b)};
		for(int n = 0; n < (vc::tier ? 2 : 1) * g.max; n++){ std::string t = vc::fmt(g.st, n, n * 3); std::vector<EX> x; if(!refExpr(t, x)){ Expr f(t); CHECK(!f.f, "%s is accepted", t.c_str()); return; } size_t from = 0; for(auto &e : x){ std::string one = x.size() == 1 ? t : from ? t.substr(from + 2) : t.substr(0, t.find(", ")); if(x.size() > 1 && !from) from = t.find(", "); Expr f(one); std::vector<EX> y; CHECK(f.f && refExpr(one, y) && y.size() == 1, "%s", one.c_str()); St nx; if(!step(one, f.f, y[0], s, nx, vc::fmt("step %d: ", n))) return; s = nx; } vc::state(vc::fmt("%s %d", g.name, n)); vc::count(g.name); } });
	// statements of every width: lists, operands, parameters, members and nesting of n
	struct W { const char *name; int max; std::function<std::vector<std::string>(int)> mk; };
	auto rep = [](int n, const char *sep, std::function<std::string(int)> f){ std::string r; for(int k = 0; k < n; k++) r += (k ? sep : "") + f(k); return r; };
	auto num = [rep](int n, int add = 0){ return rep(n, ", ", [=](int k){ return std::to_string(k + add); }); };
	static const std::vector<W> ws{
		{"elements assigned", 200, [=](int n){ std::vector<std::string> r; std::string ix = num(n), rev = rep(n, ", ", [n](int k){ return std::to_string(n - 1 - k); }); for(const std::string &i : {ix, rev, ix + vc::fmt(", %d", n), "0, " + rev, std::string("0:1:") + std::to_string(n - 1), vc::fmt("%d:-1:0", n - 1), std::to_string(n - 1), std::to_string(n), std::string("0:2:") + std::to_string(n)}) for(const std::string &v : {std::string("7"), "[" + num(n, 50) + "]", "[" + num(n - n / 3, 70) + "]", std::string("\"text\""), std::string("/m")}) r.push_back("/l[[" + i + "]] = " + v); return r; }},
		{"elements read", 200, [=](int n){ std::string ix = num(n); return std::vector<std::string>{"/x = /l[[" + ix + "]]", "/x = /m[[" + ix + "]]", "nth(/l, [" + ix + "])", "/x = nth(/m, [" + ix + "])", vc::fmt("/x = /l[[%d]]", n - 1), vc::fmt("/x = /m[[%d]]", n), "/l = /m", "/m += 1", "/l += /m", "/l[[0]] += 5", vc::fmt("/l[[%d]] += 5", n - 1), "/x = [/l, /m, /l]", "/x ?" "?= /l", "/nope ?" "?= /l", "/l = nil", "reverse(/l)", "sort(/m)", "sum(/l)", "/x = length(/l) + length(/m)"}; }},
		{"lists mapped over", 14, [=](int n){ std::vector<std::string> r; std::string ps = rep(n, ", ", [](int k){ return vc::fmt("a%d", k); }), body = rep(n, " + ", [](int k){ return vc::fmt("a%d", k); }); for(int sh = 0; sh < n; sh++) for(int len : {1, 2, 3}){ std::string ls = rep(n, ", ", [=](int k){ return "[" + rep(k == sh ? len : 3 - (k > sh && sh % 2), ", ", [k](int j){ return std::to_string(10 * k + j); }) + "]"; }); r.push_back("map(lambda([" + ps + "], " + body + "), " + ls + ")"); if(len == 2) r.push_back("/x = map(lambda([" + ps + "], [a0, a" + std::to_string(n - 1) + "]), " + ls + ")"); } return r; }},
		{"parameters", 60, [=](int n){ std::string ps = rep(n, ", ", [](int k){ return vc::fmt("a%d", k); }), pb = rep(n, ", ", [n](int k){ return vc::fmt("a%d", n - 1 - k); }), as = num(n, 3); std::vector<std::string> r; for(const std::string &body : {"[" + pb + "]", std::string("a0"), vc::fmt("a%d", n - 1), vc::fmt("/x = a%d, a0", n / 2)}) for(const std::string &a : {as, num(n - 1, 3), num(n + 1, 3)}) r.push_back("apply(lambda([" + ps + "], " + body + "), " + a + ")"); return r; }},
		{"items of functions", 150, [=](int n){ std::string as = num(n); return std::vector<std::string>{"list(" + as + ")", "/x = [" + as + "]", "map(lambda([a], a * 2), [" + as + "])", "map(lambda([a], [a, a]), [" + as + "])", "/x = map(lambda([a], if(a > 2, a, \"s\")), [" + as + "])", "reduce(lambda([a, b], a + b), [" + as + "])", "reduce(lambda([a, b], a - b), [" + as + "], 100)", "reduce(\"+\", [" + as + "])", "sum(" + as + ")", "/x = sum([" + as + "], /l)", "delete(" + rep(n, ", ", [](int k){ return vc::fmt("/e%d", k); }) + ", /l)", "/x = {" + rep(n, ", ", [](int k){ return vc::fmt("/k%d : %d", k, k); }) + "}", "/x = bundle(" + rep(n, ", ", [](int k){ return vc::fmt("/k%d, [%d, \"v\"]", k, k); }) + ")", "map(lambda([a], /x = /x + a), [" + as + "])", "exists(/l)", "getaddresses()", "/x = " + rep(n, " + ", [](int k){ return std::to_string(k); }), "/x = " + rep(n, " + ", [](int){ return std::string("/l"); }), "/x = \"" + std::string(n, 't') + "\" + \"u\"", "/x = tokenize(\"" + std::string(n, 't') + " + 1\")", "/" + std::string(n, 'a') + " = 5", "/" + std::string(n, 'a') + "/" + std::string(n, 'b') + " = /l"}; }},
		{"nesting", 60, [=](int n){ std::string open, close, t = "1"; for(int k = 0; k < n; k++) t = k % 3 ? "(" + t + " + 1)" : "list(" + t + ", 2)"; std::string iff = "0"; for(int k = 0; k < n; k++) iff = vc::fmt("if(/y == %d, %d, ", k, k) + iff + ")"; std::string tern = "-1"; for(int k = 0; k < n; k++) tern = vc::fmt("/y == %d ? %d : ", n - 1 - k, k) + tern; std::string nb = "{/z : 1}"; for(int k = 0; k < n && k < 30; k++) nb = vc::fmt("{/k%d : ", k) + nb + "}"; std::string mp = "[1, 2]"; for(int k = 0; k < n && k < 30; k++) mp = "map(lambda([a], a + 1), " + mp + ")"; return std::vector<std::string>{"/x = " + t, "/x = " + iff, "/x = " + tern, "/x = " + nb, "/x = " + mp, rep(n, " = ", [](int k){ return vc::fmt("/c%d", k); }) + " = /y", "/x = " + std::string(n, '!') + "/y", "/x = " + rep(n, "", [](int){ return std::string("- "); }) + "/y"}; }},
	};
	for(auto &w : ws) CASE(vc::fmt("statements by width: %s", w.name), { for(int n = 1; n <= (vc::tier ? 2 : 1) * w.max; n++){ if(!vc::look(n) && n % 10) continue; Bndl b{0, {Msg{"/x", {vi('i', 1)}}, Msg{"/l", {}}, Msg{"/e1", {vi('i', 5)}}, Msg{"/m", {}}, Msg{"/y", {vi('i', n / 2)}}, Msg{"/e0", {}}}}; for(int k = 0; k < n; k++){ b.m[1].v.push_back(vi('i', k * 2)); b.m[3].v.push_back(k % 3 ? vd('d', n - k) : vi('i', k)); } St s{b, enc(b)};
		for(auto &t : w.mk(n)) { try{ statement(t, {s}); }catch(vc::Fail &f){ vc::fail("width %d: %s", n, f.msg.c_str()); } } vc::count(w.name); } });
}
void explore(){
	large();
	auto S = starts();
	composed(); overLists();
	for(auto &t : themes()) for(size_t si = 0; si < S.size(); si++) for(size_t first = 0; first < t.st.size(); first++)
		CASE(vc::fmt("%s: histories from start %zu that begin with %s", t.name, si, t.st[first].c_str()), {
			std::vector<std::unique_ptr<Expr>> F; std::vector<EX> X;
			for(auto &s : t.st){ F.emplace_back(new Expr(s)); CHECK(F.back()->f, "%s is not accepted", s.c_str()); std::vector<EX> x; CHECK(refExpr(s, x) && x.size() == 1, "%s: reference", s.c_str()); X.push_back(x[0]); }
			std::vector<std::pair<St, std::string>> cur; std::set<std::string> seen; St s0{S[si], enc(S[si])}; seen.insert(s0.by);
			{ St n; if(step(t.st[first], F[first]->f, X[first], s0, n, "")){ cur.push_back({n, t.st[first] + "; "}); seen.insert(n.by); } }
			for(int d = 1; d < depth(); d++){ std::vector<std::pair<St, std::string>> nx;
				for(auto &c : cur) for(size_t k = 0; k < X.size(); k++){ St n; if(!step(t.st[k], F[k]->f, X[k], c.first, n, c.second)) continue; if(n.by.size() < 4000 && seen.insert(n.by).second){ vc::state(vc::fmt("%zu %s", si, vc::hex(n.by.data(), n.by.size()).c_str())); if(d + 1 < depth()) nx.push_back({n, c.second + t.st[k] + "; "}); } }
				cur.swap(nx); }
		});
}
