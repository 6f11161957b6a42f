// C23: list functions
#include "eval.hpp"
#include "match.hpp"
#include <functional>
const char *PROP = "C23";
static int N1(){ return vc::tier ? 4 : 3; }
std::string bounds(){ return vc::fmt("every list function: all lists of up to %d values from a pool of 22 (numbers of every type, booleans, nil, strings, a blob, a bundle, NaN) for functions of one list; all pairs of lists of up to 2 values from a pool of %d for functions of two; all triples / quintuples of short lists for those of more; patterned lists of up to 20 values, lists of every size to %d, strings to 400 characters, up to 150 operands; every statement evaluated on fresh bundles; quickhull of every sequence of up to %d points of a 3x3 grid, in both forms", N1(), vc::tier ? 18 : 11, vc::tier ? 700 : 300, vc::tier ? 6 : 5); }
void warmup(){}
static long live0;
static bool matches(const std::string &p, const std::string &a){ return refMatch(p, a).r == 3; }
static std::string bytesOf(const std::vector<L> &a){ Bndl b{5, {Msg{"/other", {vi('i', 42)}}}}; for(size_t k = 0; k < a.size(); k++) b.m.push_back(Msg{"/" + std::string(1, (char)('a' + k)), a[k]}); return enc(b); }
static std::string call(const std::string &f, int n){ std::string t = f + "("; for(int k = 0; k < n; k++) t += std::string(k ? ", /" : "/") + (char)('a' + k); return t + ")"; }
static const std::string ALLTAGS = "cCuUiIhHfdsbTFNt.";
static void judge(t_osc_expr *f, const std::string &fn, const std::vector<L> &a){
	L w; int kind = 0; std::string c = fn == "avg" ? "mean" : fn == "rev" ? "reverse" : fn;
	bool special = fn == "sort" || fn == "sortidx" || fn == "match";
	if(!special) try{ if(!callList(c, a, w)) abort(); }catch(EErr &){ kind = 1; }catch(Skip &){ kind = 2; }catch(Soft &){ kind = 3; }
	std::string by = bytesOf(a); long er = vc::errors_reported; Got g = evalOn(f, by);
	std::string where = fn + "("; for(size_t k = 0; k < a.size(); k++) where += (k ? ", " : "") + str(a[k]); where += ")";
	CHECK(g.b == by, "%s changed the bundle", where.c_str());
	CHECK(vc::live() == live0, "%s: %ld blocks remain: %s", where.c_str(), vc::live() - live0, vc::live_desc().c_str());
	if(!g.e) for(auto &v : g.v) CHECK(v.t && ALLTAGS.find(v.t) != std::string::npos, "%s gives a value of no type: %s", where.c_str(), str(g.v).c_str());
	if(special){ L all = cat(a);
		if(fn == "match") for(auto &v : a[0]) if(v.t != 's'){ CHECK(g.e, "%s is accepted", where.c_str()); vc::count("errors"); return; }
		CHECK(!g.e, "%s is an error", where.c_str()); bool nan = false; for(auto &v : all) if((isflt(v.t) && v.d != v.d) || v.t == 't') nan = true;
		if(fn == "sort"){ std::multiset<std::string> x, y; for(auto &v : all) x.insert(str(v)); for(auto &v : g.v) y.insert(str(v)); CHECK(x == y, "%s gives %s: other elements", where.c_str(), str(g.v).c_str()); if(!nan) for(size_t k = 1; k < g.v.size(); k++) CHECK(!sortLess(g.v[k], g.v[k - 1]), "%s gives %s: not sorted", where.c_str(), str(g.v).c_str()); }
		else if(fn == "sortidx"){ std::set<int> s; for(auto &v : g.v){ CHECK(v.t == 'i' && v.i >= 0 && v.i < (long)a[0].size(), "%s gives %s", where.c_str(), str(g.v).c_str()); s.insert((int)v.i); } CHECK(s.size() == a[0].size() && g.v.size() == s.size(), "%s gives %s: not a permutation", where.c_str(), str(g.v).c_str()); if(!nan) for(size_t k = 1; k < g.v.size(); k++) CHECK(!sortLess(a[0][g.v[k].i], a[0][g.v[k - 1].i]), "%s gives %s: not in order", where.c_str(), str(g.v).c_str()); }
		else { CHECK(g.v.size() == a[0].size(), "%s gives %s", where.c_str(), str(g.v).c_str());
			for(size_t k = 0; k < a[0].size(); k++){ if(a[0][k].t != 's') continue; const Val &v = g.v[k]; CHECK(v.t == '.' && v.b->m.size() == 4 && v.b->m[0].a == "/pattern" && v.b->m[1].a == "/full" && v.b->m[2].a == "/partial" && v.b->m[3].a == "/unmatched" && eq(v.b->m[0].v[0], a[0][k]), "%s gives %s", where.c_str(), str(g.v).c_str());
				size_t pos[4] = {0, 0, 0, 0}; const std::string &p = a[0][k].s;
				for(auto &x : a[1]){ if(x.t != 's') continue; int in = 0; for(int q = 1; q < 4; q++) if(pos[q] < v.b->m[q].v.size() && eq(v.b->m[q].v[pos[q]], x)){ in = q; break; }
					CHECK(in, "%s: %s is in no list, or out of order: %s", where.c_str(), str(x).c_str(), str(v).c_str()); pos[in]++;
					bool full = matches(p, x.s); CHECK((in == 1) == full, "%s: %s is in list %d, full match %d", where.c_str(), str(x).c_str(), in, full);
					bool genuine = false; for(size_t c = 1; c < p.size(); c++) if(p[c] == '/' && matches(p.substr(0, c), x.s)) genuine = true; if(genuine && !full) CHECK(in == 2, "%s: %s matches the beginning of the pattern but is in list %d", where.c_str(), str(x).c_str(), in); }
				for(int q = 1; q < 4; q++) CHECK(pos[q] == v.b->m[q].v.size(), "%s: superfluous: %s", where.c_str(), str(v).c_str()); } }
		vc::state(where); vc::count("values"); return; }
	double mag = 1; for(auto &l : a) for(auto &v : l) if(isnum(v.t)) { double d = fabs(isint(v.t) || isflt(v.t) ? (isflt(v.t) ? v.d : (double)v.i) : 1); if(std::isfinite(d)) mag = std::max(mag, d); } if(fn != "dot" && fn != "det" && fn != "cross" && fn != "l2norm" && fn != "product" && fn != "sum" && fn != "mean" && fn != "avg" && fn != "cumsum" && fn != "scale") mag = 0; else if(mag < 1e9) mag = 1; else mag *= (fn == "dot" || fn == "cross") ? mag : 1;
	if(kind == 1) CHECK(g.e, "%s gives %s instead of an error", where.c_str(), str(g.v).c_str());
	else if(kind == 3) CHECK(g.e || g.v.empty() || (g.v.size() == 1 && isflt(g.v[0].t) && g.v[0].d != g.v[0].d), "%s gives %s instead of an error or nothing", where.c_str(), str(g.v).c_str());
	else if(kind == 0){ CHECK(!g.e, "%s is an error, want %s", where.c_str(), str(w).c_str());
		if(fn == "strcmp"){ CHECK(g.v.size() == 1 && g.v[0].t == 'i' && (g.v[0].i > 0) - (g.v[0].i < 0) == w[0].i, "%s gives %s, want the sign of %s", where.c_str(), str(g.v).c_str(), str(w).c_str()); }
		else CHECK(near(w, g.v, mag), "%s gives %s, want %s", where.c_str(), str(g.v).c_str(), str(w).c_str());
		CHECK(vc::errors_reported == er, "%s reports an error and gives %s", where.c_str(), str(g.v).c_str()); vc::state(where); }
	vc::count(kind == 1 ? "errors" : kind == 2 ? "unspecified" : kind == 3 ? "soft" : "values");
}
static void lists(const L &pool, int n, const std::function<void(const L &)> &cb){ L l; std::function<void(int)> rec = [&](int d){ cb(l); if(d == n) return; for(auto &v : pool){ l.push_back(v); rec(d + 1); l.pop_back(); } }; rec(0); }
// ---- the convex hull: every corner is in it, and nothing that is not on its edge
typedef std::pair<int, int> Pt;
static long side(Pt a, Pt b, Pt c){ return (long)(b.first - a.first) * (c.second - a.second) - (long)(b.second - a.second) * (c.first - a.first); }
static bool between(Pt a, Pt b, Pt c){ return side(a, b, c) == 0 && std::min(a.first, b.first) <= c.first && c.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= c.second && c.second <= std::max(a.second, b.second); }
static void hull(t_osc_expr *f1, t_osc_expr *f2, const std::vector<Pt> &p, char t){
	L both, xs, ys; for(auto &q : p){ Val x = isflt(t) ? vd(t, q.first) : vi(t, q.first), y = isflt(t) ? vd(t, q.second) : vi(t, q.second); both.push_back(x); both.push_back(y); xs.push_back(x); ys.push_back(y); }
	std::set<Pt> d(p.begin(), p.end()), corners, edge;
	for(auto &c : d){ bool corner = true; for(auto &a : d) for(auto &b : d) if(corner && a != c && b != c && a < b){ if(between(a, b, c)) corner = false; for(auto &e : d) if(corner && e != c){ long x = side(a, b, c), y = side(b, e, c), z = side(e, a, c); if(side(a, b, e) && ((x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0))) corner = false; } } if(corner) corners.insert(c); }
	for(auto &c : d){ bool in = corners.count(c); for(auto &a : corners) for(auto &b : corners) if(!in && a < b && between(a, b, c)){ bool pos = false, neg = false; for(auto &e : d){ long x = side(a, b, e); pos |= x > 0; neg |= x < 0; } in = !(pos && neg); } if(in) edge.insert(c); }
	for(int w = 0; w < 2; w++){ std::string by = w ? bytesOf({xs, ys}) : bytesOf({both}); Got g = evalOn(w ? f2 : f1, by); std::string where = vc::fmt("quickhull of %s", str(both).c_str()); CHECK(g.b == by, "%s changes the bundle", where.c_str()); CHECK(vc::live() == live0, "%s leaks: %s", where.c_str(), vc::live_desc().c_str());
		if(p.size() < 3){ CHECK(g.e || g.v.empty(), "%s gives %s", where.c_str(), str(g.v).c_str()); continue; }
		CHECK(!g.e && g.v.size() % 2 == 0, "%s gives %s", where.c_str(), str(g.v).c_str()); std::multiset<Pt> left(p.begin(), p.end()); std::set<Pt> got; for(size_t k = 0; k < g.v.size(); k += 2){ CHECK(g.v[k].t == 'd' && g.v[k + 1].t == 'd', "%s gives %s", where.c_str(), str(g.v).c_str()); Pt q((int)g.v[k].d, (int)g.v[k + 1].d); auto it = left.find(q); CHECK(it != left.end(), "%s gives %s: not its points", where.c_str(), str(g.v).c_str()); left.erase(it); CHECK(edge.count(q), "%s gives %s: (%d, %d) is not on the hull", where.c_str(), str(g.v).c_str(), q.first, q.second); got.insert(q); }
		for(auto &c : corners) CHECK(got.count(c), "%s gives %s: (%d, %d) is missing", where.c_str(), str(g.v).c_str(), c.first, c.second); vc::state(where); }
}
void explore(){
	Val sub = vb(Bndl{0, {Msg{"/x", {vi('i', 1)}}}});
	L P{vi('i', -3), vi('i', 0), vi('i', 2), vd('f', 2.5), vi('h', 1ll << 33), vd('d', -.5), vi('c', 5), vi('C', 200), vi('u', -300), vi('U', 60000), vi('I', 4000000000ll), vi('H', INT64_MIN), vt('T'), vt('F'), vs(""), vs("b"), vs("a/b"), vt('N'), vblob("xyz"), sub, vd('d', NAN), vi('t', 0x0000000a80000000ll)};
	L NUM(P.begin(), P.begin() + 14);
	// functions of one list
	std::vector<std::string> F1{"product", "sum", "cumsum", "length", "mean", "avg", "median", "reverse", "rev", "sort", "sortidx", "nonzero", "list", "nfill", "first", "last", "rest", "butlast", "det", "l2norm", "min", "max", "range", "extrema", "mtof", "ftom", "sign", "strlen", "identity", "prog1", "prog2", "progn", "typetags", "float32", "float64", "int8", "char", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "string", "blob", "hton32", "ntoh32", "hton64", "ntoh64", "readstring", "strtotime", "floattotime", "interleave"};
	for(auto &fn : F1){ if(fn == "interleave") continue;
		std::string text = call(fn, 1); L pool = fn == "nfill" ? L{vi('i', -3), vi('i', 0), vi('i', 3), vi('h', 2), vd('d', 2.9), vd('f', 1), vi('c', 5), vs("3"), vt('T'), vt('N')} : P;
		for(size_t i = 0; i < pool.size(); i++) CASE(text + " from " + str(pool[i]), { Expr f(text); CHECK(f.f, "parse"); live0 = vc::live(); if(!i) judge(f.f, fn, {{}}); lists(pool, N1() - 1, [&](const L &l){ L x{pool[i]}; x.insert(x.end(), l.begin(), l.end()); judge(f.f, fn, {x}); }); });
		CASE(text + " long", { Expr f(text); live0 = vc::live(); for(size_t n = 4; n <= 20; n++) for(size_t r = 0; r < pool.size(); r++) for(size_t step : {1, 5, 7}){ L x, y; for(size_t k = 0; k < n; k++){ x.push_back(pool[(r + step * k) % pool.size()]); y.push_back(vi('i', (int)((r + 7 * k * step) % 23) - 11)); } judge(f.f, fn, {x}); if(fn != "nfill") judge(f.f, fn, {y}); } });
	}
	// the same functions of lists of every size
	for(auto &fn : F1) if(fn != "nfill" && fn != "interleave") CASE(call(fn, 1) + " of every size", { Expr f(call(fn, 1)); live0 = vc::live(); for(int n = 21; n <= (vc::tier ? 700 : 300); n++) if(vc::look(n)) for(int r = 0; r < 4; r++){ L x; for(int k = 0; k < n; k++) x.push_back(r == 0 ? vi('i', (k * 37) % 101 - 50) : r == 1 ? vd('f', (k * 29) % 64 * .25) : r == 2 ? P[(k * 5 + n) % 14] : vi("cuih"[k % 4], k % 100)); judge(f.f, fn, {x}); } });
	CASE("long strings", { Expr sl("strlen(/a)"), sp("split(/a, /b)"), sf("strfind(/a, /b)"), jn("join(/a, /b)"), sc("strcmp(/a, /b)"), ch("strchar(/a, /b)"); live0 = vc::live(); for(int n = 1; n <= 400; n++){ if(!vc::look(n)) continue; std::string s, t; for(int k = 0; k < n; k++){ s += (char)('a' + k % 26); t += k % 7 == 6 ? ',' : 'x'; } L parts; for(int k = 0; k < n; k++) parts.push_back(vs(std::string(k % 9, 'p')));
		judge(sl.f, "strlen", {{vs(s), vs(t)}}); judge(sp.f, "split", {{vs(",")}, {vs(t)}}); judge(sp.f, "split", {{vs(s)}, {vs(t + s + t)}}); judge(sp.f, "split", {{vs("")}, {vs(s)}}); judge(sf.f, "strfind", {{vs("z")}, {vs(s)}}); judge(sf.f, "strfind", {{vs(s)}, {vs(t + s)}}); judge(sf.f, "strfind", {{vs(s + "!")}, {vs(t + s)}}); judge(jn.f, "join", {{vs(", ")}, parts}); judge(jn.f, "join", {{vs(s)}, {vs(t), vs(s), vs("q")}});
		judge(sc.f, "strcmp", {{vs(s)}, {vs(s)}}); { std::string u = s; u[n - 1]++; judge(sc.f, "strcmp", {{vs(s)}, {vs(u)}}); judge(sc.f, "strcmp", {{vs(u)}, {vs(s)}}); judge(sc.f, "strcmp", {{vs(s)}, {vs(s + "a")}}); } for(int i : {0, 1, n / 2, n - 1, n}) judge(ch.f, "strchar", {{vs(s)}, {vi('i', i)}}); } });
	CASE("long lists of two", { Expr nt("nth(/a, /b)"), dt("dot(/a, /b)"), il("interleave(/a, /b)"), ls("list(/a, /b)"), as("aseq(/a, /b)"), nf("nfill(/a, /b)"), st("sort(/a, /b)"); live0 = vc::live(); for(int n = 1; n <= 300; n++){ if(!vc::look(n)) continue; L x, y, ix; for(int k = 0; k < n; k++){ x.push_back(vi(k % 2 ? 'i' : 'h', k * 3 % 50)); y.push_back(vd(k % 3 ? 'd' : 'f', k * .5)); ix.push_back(vi('i', n - 1 - k)); }
		judge(nt.f, "nth", {x, ix}); judge(nt.f, "nth", {y, {vi('i', n - 1), vi('i', 0), vi('i', n / 2)}}); judge(nt.f, "nth", {y, {vi('i', n)}}); judge(dt.f, "dot", {x, x}); judge(dt.f, "dot", {x, y}); judge(il.f, "interleave", {x, y}); judge(ls.f, "list", {x, y}); judge(as.f, "aseq", {{vi('i', 1)}, {vi('i', n)}}); judge(as.f, "aseq", {{vi('i', n)}, {vi('i', -3)}}); judge(nf.f, "nfill", {{vi('i', n)}, {vs("q")}}); judge(st.f, "sort", {x, y}); } });
	CASE("many operands", { for(int n = 1; n <= 150; n++){ if(!vc::look(n)) continue; for(std::string fn : {"list", "interleave", "sort", "progn", "prog1", "join"}){ std::string t = fn + "("; for(int k = 0; k < n; k++) t += vc::fmt("%s/%c%d", k ? ", " : "", 'a', k); t += ")"; std::vector<L> a; Bndl b; for(int k = 0; k < n; k++){ a.push_back(fn == "join" ? L{vs(vc::fmt("%d", k))} : L{vi('i', (k * 7) % 31), vi('h', k)}); b.m.push_back(Msg{vc::fmt("/a%d", k), a.back()}); }
		long l0 = vc::live(); { Expr f(t); CHECK(f.f || n < 3, "%s is not accepted", t.c_str()); if(f.f){ std::string by = enc(b); Got g = evalOn(f.f, by); L w; int kind = 0; if(fn != "sort") try{ if(!callList(fn, a, w)) abort(); }catch(EErr &){ kind = 1; }catch(Skip &){ kind = 2; }catch(Soft &){ kind = 3; } if(fn == "sort"){ w = cat(a); std::stable_sort(w.begin(), w.end(), sortLess); CHECK(!g.e && g.v.size() == w.size(), "%s gives %s", t.c_str(), str(g.v).c_str()); for(size_t k = 0; k < w.size(); k++) CHECK(!sortLess(w[k], g.v[k]) && !sortLess(g.v[k], w[k]), "%s gives %s", t.c_str(), str(g.v).c_str()); } else if(kind == 0) CHECK(!g.e && eqw(w, g.v), "%s gives %s, want %s", t.c_str(), str(g.v).c_str(), str(w).c_str()); else if(kind == 1) CHECK(g.e, "%s gives %s instead of an error", t.c_str(), str(g.v).c_str()); CHECK(g.b == by, "%s changed the bundle", t.c_str()); vc::trans(); } } CHECK(vc::live() == l0, "%s: %ld blocks remain", t.c_str(), vc::live() - l0); } } });
	// boundary values for the conversions and totals
	L B; for(char t : ALLT) for(auto &v : valsOf(t, true)) B.push_back(v); for(double d : {127.5, 128., -129., 255.9, 256., 32768., 65536., 2147483647., 2147483648., 4294967296., 9223372036854775808., 1e300, -1e300}){ B.push_back(vd('d', d)); B.push_back(vd('f', d)); }
	for(auto &fn : F1) if(fn != "nfill" && fn != "interleave") CASE(fn + " of boundary values", { Expr f(call(fn, 1)); live0 = vc::live(); for(auto &v : B){ judge(f.f, fn, {{v}}); judge(f.f, fn, {{v, v}}); judge(f.f, fn, {{v, vi('i', 3), vi('i', -1)}}); } });
	// functions of several lists
	L Q{vi('i', -1), vi('i', 0), vi('i', 1), vd('f', 2.5), vi('h', 1ll << 33), vi('c', 'a'), vt('T'), vs("a"), vs("a,b"), vs(""), vblob("xyz")};
	if(vc::tier) for(Val v : {vi('C', 'b'), vt('N'), vi('U', 60000), vd('d', -.5), vi('H', -1), vi('I', 7), vi('u', -2)}) Q.push_back(v);
	for(std::string fn : {"nth", "nfill", "aseq", "interleave", "dot", "det", "mtof", "ftom", "strchar", "strfind", "strcmp", "split", "join", "bitand", "bitor", "cast", "list", "product", "sum", "cumsum", "length", "sort", "prog1", "prog2", "progn", "hton32", "ntoh64"}){
		if(fn == "product" || fn == "sum" || fn == "cumsum" || fn == "length") continue;   // one list only
		if(fn == "hton32" || fn == "ntoh64") continue;
		std::string text = call(fn, 2);
		std::vector<L> as; lists(Q, 2, [&](const L &l){ as.push_back(l); });
		for(size_t i = 0; i < as.size(); i++) CASE(text + " with " + str(as[i]), { Expr f(text); CHECK(f.f, "parse"); live0 = vc::live(); for(auto &b : as) judge(f.f, fn, {as[i], b}); }); }
	// longer lists
	for(std::string fn : {"nth", "strchar"}) CASE(fn + " of longer lists", { Expr f(call(fn, 2)); live0 = vc::live(); for(int n = 0; n <= 6; n++) for(int i = -2; i <= n + 1; i++) for(int j = -2; j <= n + 1; j++){ L x; std::string s; for(int k = 0; k < n; k++){ x.push_back(vi('i', 10 + k)); s += (char)('p' + k); } L ix{vi('i', i), vi('h', j)}; if(fn == "nth"){ judge(f.f, fn, {x, ix}); judge(f.f, fn, {{vblob(s)}, ix}); judge(f.f, fn, {{vs(s)}, ix}); } else judge(f.f, fn, {ix, {vs(s), vs(s + "xyz")}}); } });
	CASE("nth with wide indexes", { Expr f(call("nth", 2)); live0 = vc::live(); for(Val v : {vi('h', 1ll << 32), vi('h', (1ll << 32) + 1), vi('I', 4294967295ll), vd('d', .9), vd('d', -.9), vd('d', 2.99), vd('d', 1e30), vd('f', NAN), vi('H', INT64_MIN)}){ L x{vi('i', 1), vi('i', 2), vi('i', 3)}; std::string by = bytesOf({x, {v}}); Got g = evalOn(f.f, by); (void)g; CHECK(vc::live() == live0, "leak"); } });
	CASE("aseq", { Expr f(call("aseq", 2)), f3(call("aseq", 3)); live0 = vc::live(); L e; for(double d : {0., 1., -1., 2.5, -7., 10., .3, 100.}) for(char t : {'i', 'f', 'd', 'h', 'c'}) if(isflt(t)) e.push_back(vd(t, (float)d)); else if(d == trunc(d)) e.push_back(vi(t, (int)d));
		e.push_back(vi('h', 1ll << 40)); e.push_back(vi('h', (1ll << 40) + 5)); e.push_back(vi('I', 4294967295ll)); e.push_back(vi('I', 4294967290ll)); e.push_back(vi('i', INT32_MAX)); e.push_back(vi('i', INT32_MAX - 3)); e.push_back(vi('i', INT32_MIN)); e.push_back(vt('T'));
		auto tame = [](double a, double b, double s){ return !(fabs(b - a) / fabs(s) > 1e5); };
		for(auto &a : e) for(auto &b : e){ if(tame(toD(a), toD(b), 1)) judge(f.f, "aseq", {{a}, {b}}); for(Val s : {vi('i', 0), vi('i', 1), vi('i', -1), vi('i', 3), vd('d', .25), vd('f', -.5), vi('h', 1000000000ll), vd('d', 0)}) if(tame(toD(a), toD(b), toD(s))) judge(f3.f, "aseq", {{a}, {b}, {s}}); }
		for(auto &a : e) for(int m = 0; m < 8; m++) judge(f3.f, "aseq", {m & 1 ? L{a} : L{}, m & 2 ? L{vi('i', 3)} : L{}, m & 4 ? L{vi('i', 1)} : L{}}); });
	// more than two lists
	L S{vi('i', 0), vi('i', 1), vi('i', -2), vd('f', 2.5), vi('h', 3), vs("a"), vs(""), vi('c', 'x')};
	for(std::string fn : {"nth", "interleave", "list", "sort", "join", "prog1", "prog2", "progn", "strcmp", "det"}){ std::vector<L> as; lists(S, vc::tier ? 2 : 1, [&](const L &l){ as.push_back(l); }); if(!vc::tier){ as.push_back({S[1], S[5]}); as.push_back({S[0], S[2]}); as.push_back({S[4], S[3], S[0]}); }
		for(size_t i = 0; i < as.size(); i++) CASE(call(fn, 3) + " with " + str(as[i]), { Expr f(call(fn, 3)); CHECK(f.f, "parse"); live0 = vc::live(); for(auto &b : as) for(auto &c : as) judge(f.f, fn, {as[i], b, c}); }); }
	L C{vi('i', -5), vi('i', 0), vi('i', 10), vd('f', 2.5), vd('d', -7.25), vi('h', 1ll << 40), vi('H', INT64_MIN), vi('c', 4), vi('I', 4294967295ll), vs("s"), vt('T'), vt('N'), sub, vd('d', NAN), vi('t', 1), vblob("b")};
	for(size_t i = 0; i < C.size(); i++) CASE("clip to " + str(C[i]), { Expr f(call("clip", 3)); CHECK(f.f, "parse"); live0 = vc::live(); for(size_t j = 0; j < C.size(); j++){ judge(f.f, "clip", {C, {C[i]}, {C[j]}}); judge(f.f, "clip", {{C[i], C[j]}, {}, {vi('i', 1)}}); judge(f.f, "clip", {{C[i], C[j]}, {vi('i', 1)}, {}}); lists(C, 2, [&](const L &l){ judge(f.f, "clip", {l, {C[i]}, {C[j]}}); }); } });
	L D{vi('i', 0), vi('i', 1), vi('i', 10), vd('d', .5), vi('i', -4), vi('h', 1ll << 40), vt('T')};
	for(auto &i0 : D) for(auto &i1 : D) CASE("scale from " + str(i0) + ", " + str(i1), { Expr f(call("scale", 5)); CHECK(f.f, "parse"); live0 = vc::live(); for(auto &o0 : D) for(auto &o1 : D){ judge(f.f, "scale", {C, {i0}, {i1}, {o0}, {o1}}); L few{vi('i', 3), vi('i', 5), vd('f', -1.5)}; judge(f.f, "scale", {few, {i0}, {i1}, {o0}, {o1}}); for(int m = 0; m < 15; m++) judge(f.f, "scale", {few, m & 1 ? L{i0} : L{}, m & 2 ? L{i1} : L{}, m & 4 ? L{o0} : L{}, m & 8 ? L{o1} : L{}}); } });
	// vectors and matrices
	L V{vi('i', 1), vi('i', -2), vi('c', 100), vi('C', 200), vi('u', -300), vi('U', 60000), vi('I', 4000000000ll), vi('h', 1ll << 31), vi('H', INT64_MIN), vd('f', 1.5), vd('d', -.25)};
	for(auto &a : V) for(auto &b : V) CASE("cross and dot from " + str(a) + ", " + str(b), { Expr f("cross(/a, /b)"), g("dot(/a, /b)"); live0 = vc::live(); for(auto &c : V) for(auto &d : V){ std::vector<L> x{{a, b, c}, {d, a, vi('i', 3)}}; judge(f.f, "cross", x); judge(g.f, "dot", x); x[1].push_back(d); judge(f.f, "cross", x); judge(g.f, "dot", x); x[0].pop_back(); judge(f.f, "cross", x); judge(g.f, "dot", x); } });
	for(int n = 1; n <= 5; n++) CASE(vc::fmt("det of %d rows", n), { Expr f(call("det", n)); CHECK(f.f, "parse"); live0 = vc::live(); long cnt = n == 1 ? 7 : n == 2 ? 2401 : vc::tier ? 200000 : 20000; bool full = n <= 2;
		if(full){ std::vector<int> x(n * n, 0); for(long c = 0; c < cnt; c++){ long q = c; std::vector<L> m(n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++){ m[i].push_back(vi('i', q % 7 - 3)); q /= 7; } judge(f.f, "det", m); } }
		else { // all matrices whose entries follow i*a + j*b + i*j*c + d modulo p, singular ones included
			for(int a = 0; a < 4; a++) for(int b = 0; b < 4; b++) for(int c = 0; c < 4; c++) for(int d = 0; d < 4; d++) for(int p : {2, 3, 5, 7}) for(int s = 0; s < 3; s++){ std::vector<L> m(n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) m[i].push_back(vi('i', (i * a + j * b + i * j * c + d + (s ? i * i * j * s : 0)) % p - p / 3)); judge(f.f, "det", m); } }
		for(int r = 0; r < n; r++) for(int len : {0, n - 1, n + 1}){ std::vector<L> m(n); for(int i = 0; i < n; i++) for(int j = 0; j < (i == r ? len : n); j++) m[i].push_back(vi('i', i + 2 * j)); judge(f.f, "det", m); } });
	for(int a = 0; a < 27; a++) CASE(vc::fmt("det of 3 x 3 from %d", a), { Expr f("det(/a, /b, /c)"); live0 = vc::live(); for(int c = 0; c < 729; c++){ int q = a + 27 * c; std::vector<L> m(3); for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++){ m[i].push_back(vi('i', q % 3 - 1)); q /= 3; } judge(f.f, "det", m); } });
	// strings
	static const char *SEPS[] = {"", "a", "b", ",", "ab", "a,", "aa", "aba"};
	for(const char *sep : SEPS) CASE(std::string("strings with ") + vc::q(sep), { Expr fs("split(/a, /b)"), ff("strfind(/a, /b)"), fj("join(/a, /b)"), fc("strcmp(/a, /b)"), fc3("strcmp(/a, /b, /c)"); live0 = vc::live(); int n = vc::tier ? 8 : 6; for(int len = 0; len <= n; len++){ long tot = 1; for(int k = 0; k < len; k++) tot *= 3; for(long c = 0; c < tot; c++){ std::string s; long q = c; for(int k = 0; k < len; k++){ s += "ab,"[q % 3]; q /= 3; } judge(fs.f, "split", {{vs(sep)}, {vs(s)}}); judge(ff.f, "strfind", {{vs(sep)}, {vs(s)}}); judge(fc.f, "strcmp", {{vs(sep)}, {vs(s)}}); if(len <= 4) for(int m = 0; m < 5; m++) judge(fc3.f, "strcmp", {{vs(sep)}, {vs(s)}, {vi('i', m)}}); if(len <= 5){ L l; for(char ch : s) l.push_back(vs(std::string(1, ch))); judge(fj.f, "join", {{vs(sep)}, l}); } } }
		for(int k = 14; k < 40; k++){ std::string s; for(int j = 0; j < k; j++) s += "x,"; judge(fs.f, "split", {{vs(",")}, {vs(s)}}); judge(fs.f, "split", {{vs("")}, {vs(s)}}); judge(ff.f, "strfind", {{vs("x,")}, {vs(s)}}); } });
	for(int k = -3; k < 260; k += 1) CASE(vc::fmt("characters %d", k), { Expr f("string(/a)"), j("join(/b, /a)"), c("cast(/b, /a)"); live0 = vc::live(); L l{vi('c', (int8_t)k), vi('C', (uint8_t)k)}; judge(f.f, "string", {l}); std::vector<L> x{{vs("s")}, l}; std::string by = bytesOf({l, {vs("s")}}); Got g = evalOn(c.f, by); (void)g; CHECK(vc::live() == live0, "leak"); });
	// match
	L MP{vs("/a"), vs("/*"), vs("/a/b"), vs("/a/*"), vs("/{a,b}"), vs("/[ab]/c"), vs("/?"), vi('i', 1), vs("/a*/b"), vs("/x")}, MA{vs("/a"), vs("/b"), vs("/a/b"), vs("/ab"), vs("/a/c"), vi('i', 3), vs("/abc"), vs("/b/c")};
	for(auto &p : MP) CASE("match " + str(p), { Expr f("match(/a, /b)"); CHECK(f.f, "parse"); live0 = vc::live(); lists(MA, vc::tier ? 4 : 3, [&](const L &l){ judge(f.f, "match", {{p}, l}); }); for(auto &q : MP) for(auto &x : MA) judge(f.f, "match", {{p, q}, {x}}); judge(f.f, "match", {{}, {p}}); });
	CASE("match of long lists", { Expr f("match(/a, /b)"); live0 = vc::live(); for(int np : {1, 2, 9, 17, 33, 70, 140}) for(int na : {0, 1, 2, 9, 17, 33, 65, 140}){ L p, x; for(int k = 0; k < np; k++) p.push_back(k % 11 ? MP[k % MP.size()].t == 's' ? MP[k % MP.size()] : vs(vc::fmt("/n%d", k)) : vs(vc::fmt("/n%d", k))); for(int k = 0; k < na; k++) x.push_back(k % 3 ? MA[k % MA.size()] : vs(vc::fmt("/n%d", k % 100))); judge(f.f, "match", {p, x}); } });
	// bundle
	CASE("bundle of bindings", { live0 = vc::live(); for(int n = 0; n <= 4; n++){ std::string text = "{"; std::vector<L> a; Bndl w{0, {}}; L vals[] = {{vi('i', 1)}, {vs("s"), vd('f', 2.5)}, {}, {vblob("xyz"), vt('T'), sub}}; for(int k = 0; k < n; k++){ text += vc::fmt("%s/m%d : /%c", k ? ", " : "", k, 'a' + k); a.push_back(vals[k]); w.m.push_back(Msg{vc::fmt("/m%d", k), vals[k]}); } text += "}"; Expr f(text); CHECK(f.f, "parse %s", text.c_str()); long l1 = vc::live(); std::string by = bytesOf(a); Got g = evalOn(f.f, by); CHECK(!g.e && g.b == by && g.v.size() == 1 && g.v[0].t == '.' && eqw(vb(w), g.v[0]), "%s gives %s, want %s", text.c_str(), str(g.v).c_str(), str(vb(w)).c_str()); CHECK(vc::live() == l1, "%s leaks: %s", text.c_str(), vc::live_desc().c_str()); } });
	CASE("bundle of a blob, bytes or an address", { Expr f("bundle(/a)"), f2("bundle(/a, /b)"), f3("bundle(/a, /b, /c)"); live0 = vc::live(); std::string e = enc(*sub.b); L bytes; for(char c : e) bytes.push_back(vi('c', c)); 
		for(L l : {L{vblob(e)}, bytes}){ std::string by = bytesOf({l}); Got g = evalOn(f.f, by); CHECK(!g.e && g.b == by && g.v.size() == 1 && eqw(sub, g.v[0]), "bundle(%s) gives %s", str(l).c_str(), str(g.v).c_str()); CHECK(vc::live() == live0, "bundle(%s) leaks: %s", str(l).c_str(), vc::live_desc().c_str()); }
		{ std::string by = bytesOf({{vs("/q")}}); Got g = evalOn(f.f, by); CHECK(!g.e && g.v.size() == 1 && eqw(vb(Bndl{0, {Msg{"/q", {}}}}), g.v[0]), "bundle of an address gives %s", str(g.v).c_str()); }
		for(auto &v : P) for(auto &x : P){ for(t_osc_expr *ex : {f.f, f2.f, f3.f}){ if(ex == f.f && v.t == 'b') continue; std::string by = bytesOf({{v}, {x}, {vs("/z")}}); Got g = evalOn(ex, by, false); CHECK(g.b == by, "bundle changed"); CHECK(vc::live() == live0, "bundle(%s, %s) leaks: %s", str(v).c_str(), str(x).c_str(), vc::live_desc().c_str()); if(v.t == 's' || ex != f.f) CHECK(g.e, "bundle(%s, ..) is accepted", str(v).c_str()); if(ex == f.f) CHECK(g.e, "bundle(%s) is accepted", str(v).c_str()); } }
		for(int m = 0; m < 8; m++){ std::string by = bytesOf({m & 1 ? L{vs("/p")} : L{}, m & 2 ? L{vi('i', 1)} : L{}, m & 4 ? L{vs("/r")} : L{}}); for(t_osc_expr *ex : {f2.f, f3.f}){ Got g = evalOn(ex, by); CHECK(g.e || eqw(vb(Bndl{0, ex == f2.f ? std::vector<Msg>{Msg{"/p", m & 2 ? L{vi('i', 1)} : L{}}} : std::vector<Msg>{Msg{"/p", m & 2 ? L{vi('i', 1)} : L{}}, Msg{"/r", {}}}}), g.v.at(0)), "bundle(..) with lists %d gives %s", m, str(g.v).c_str()); CHECK(!g.e == ((m & 1) && (ex == f2.f || (m & 4))), "bundle(..) with lists %d: error %d", m, g.e); CHECK(vc::live() == live0, "bundle with empty lists leaks: %s", vc::live_desc().c_str()); } } });
	// the convex hull of every sequence of points of a grid
	for(int n = 0; n <= (vc::tier ? 6 : 5); n++) for(int first = 0; first < (n ? 9 : 1); first++) CASE(vc::fmt("quickhull of %d points from %d", n, first), { Expr f1("quickhull(/a)"), f2("quickhull(/a, /b)"); CHECK(f1.f && f2.f, "parse"); live0 = vc::live(); std::vector<Pt> p; static const int G[] = {0, 1, 4}; std::function<void()> rec = [&]{ if((int)p.size() == n){ hull(f1.f, f2.f, p, "idfhc"[p.size() ? (p[0].first + p.back().second + 10) % 5 : 0]); return; } for(int k = p.empty() && n ? first : 0; k < (p.empty() && n ? first + 1 : 9); k++){ p.push_back({G[k % 3] - 1, G[k / 3]}); rec(); p.pop_back(); } }; rec(); });
}
