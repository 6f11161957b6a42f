// C25: parsed expressions can be evaluated again, copied and fail without a trace
#include "stmts.hpp"
#include "forms.hpp"
const char *PROP = "C25";
static const std::vector<std::string> &operands(){ static const std::vector<std::string> a = [] { std::vector<std::string> r{"/x", "/y", "/nope", "\"/x\"", "2", "nil", "[]", "/b", "lambda([p], p)", "/y + /nope", "[1, 2.5, \"s\"]", "/z = 5"}; if(vc::tier) for(auto s : {"/t", "/s", "-1.5", "lambda([p, q], /z = p + q)", "delete(/y)", "/x[[0]]", "\"length\""}) r.push_back(s); return r; }(); return a; }
static std::vector<Bndl> lands(){ return {Bndl{9, {Msg{"/x", {vi('i', 3), vd('d', 1.5), vi('i', 2)}}, Msg{"/y", {vi('i', 7)}}, Msg{"/s", {vs("ab"), vs("c")}}, Msg{"/t", {vi('t', 5ll << 32)}}, Msg{"/b", {vb(Bndl{0, {Msg{"/x", {vi('i', 1)}}, Msg{"/m", {vs("q")}}}})}}}}, Bndl{}, Bndl{1, {Msg{"/y", {vs("/x")}}, Msg{"/x", {vi('h', 0), vt('F')}}, Msg{"/b", {vi('i', 1)}}, Msg{"/z", {vi('i', 1)}}}}}; }
std::string bounds(){ size_t n = 0; for(auto &t : themes()) n += t.st.size(); return vc::fmt("all %zu statements on every bundle reached by up to two statements; every built-in function with all tuples of up to 3 (4 for those that need more) of %zu operands on %zu bundles; all lists of three statements out of a set; %zu forms of statements with simple operands and with each operand replaced by every form; argument lists built by all sequences of up to %d edits", n, operands().size(), lands().size(), T1.size(), vc::tier ? 5 : 4); }
void warmup(){}
static bool effect(const EA &a); static bool effect(const EX &x, bool root){
	const std::string f = canon(x.fn);
	if(!root && (f == "=" || f == "assign_to_index" || f == "assigntobundlemember" || f == "delete" || f == "settimetag")) return true;
	if(f == "eval") return true;
	if(f == "apply" || f == "map" || f == "lreduce" || f == "rreduce"){ auto &g = x.args[0]; if(g.k == 'v'){ if(g.v.t == 's' && (g.v.s == "assign" || g.v.s == "delete" || g.v.s == "if" || g.v.s == "eval")) return true; } else if(g.k != 'l') return true; }
	for(auto &a : x.args) if(effect(a)) return true;
	return false;
}
static bool effect(const EA &a){ if(a.k == 'e') return effect(*a.e, false); if(a.k == 'l'){ for(auto &x : a.l->body) if(effect(x, false)) return true; } return false; }
static bool same(const Got &a, const Got &b){ if(!!a.e != !!b.e || a.b != b.b || a.null != b.null || a.v.size() != b.v.size()) return false; for(size_t k = 0; k < a.v.size(); k++) if(str(a.v[k]) != str(b.v[k])) return false; return true; }
static std::string say(const Got &g){ Bndl d; bool ok = dec(g.b.data(), g.b.size(), d); return (g.e ? std::string("error") : g.null ? std::string("no value") : str(g.v)) + " and " + (ok ? str(d) : "not a bundle: " + vc::hex(g.b.data(), g.b.size())); }
static void again(const std::string &text, t_osc_expr *f, const std::string &by, const std::string &other, Got *first = NULL){
	Bndl sb; dec(by.data(), by.size(), sb); auto where = [&]{ return text + " on " + str(sb); };
	std::vector<EX> tree = rdXs(f); CHECK(tree.size() == 1, "%s: one statement expected", text.c_str()); std::string before = str(tree);
	long l0 = vc::live(); auto bal = [&](const char *w, long base){ CHECK(vc::live() == base, "%s: %ld blocks remain%s: %s", where().c_str(), vc::live() - base, w, vc::live_desc().c_str()); };
	Got g = evalOn(f, by); bal("", l0);
	CHECK(str(rdXs(f)) == before, "%s: evaluation changed the expression to %s", where().c_str(), str(rdXs(f)).c_str());
	Bndl d; CHECK(dec(g.b.data(), g.b.size(), d), "%s leaves a bundle that is not well formed: %s", where().c_str(), vc::hex(g.b.data(), g.b.size()).c_str());
	if(g.e){ CHECK(g.null || true, " "); if(!effect(tree[0], true)) CHECK(g.b == by, "%s fails but changes the bundle to %s", where().c_str(), str(d).c_str()); vc::count("failing"); } else vc::count("succeeding");
	Got h = evalOn(f, other); Got g2 = evalOn(f, by); bal(" after evaluating on another bundle and again", l0);
	CHECK(same(g, g2), "%s: the first evaluation gives %s, the next %s", where().c_str(), say(g).c_str(), say(g2).c_str());
	t_osc_expr *c = NULL; osc_expr_copy(&c, f); CHECK(c, "no copy"); CHECK(str(rdXs(c)) == before, "%s is copied as %s", text.c_str(), str(rdXs(c)).c_str());
	long l1 = vc::live(); g2 = evalOn(c, by); bal(" after evaluating a copy", l1); CHECK(same(g, g2), "%s: the original gives %s, the copy %s", where().c_str(), say(g).c_str(), say(g2).c_str());
	Got h2 = evalOn(c, other); CHECK(same(h, h2), "%s on another bundle: the original gives %s, the copy %s", where().c_str(), say(h).c_str(), say(h2).c_str());
	osc_expr_free(c); bal(" after freeing the copy", l0);
	if(first) *first = g;
}
static void outlive(const std::string &text, const std::string &by){
	std::unique_ptr<Expr> f(new Expr(text)); if(!f->f) return; std::string before = str(rdXs(f->f)); Got g = evalOn(f->f, by);
	t_osc_expr *c = NULL, *c2 = NULL; osc_expr_copyAllLinked(&c, f->f); f.reset(); CHECK(str(rdXs(c)) == before, "%s: its copy becomes %s when it is freed", text.c_str(), str(rdXs(c)).c_str());
	osc_expr_copyAllLinked(&c2, c); Got g2 = evalOn(c, by); CHECK(same(g, g2), "%s: the original gives %s, a copy that outlives it %s", text.c_str(), say(g).c_str(), say(g2).c_str()); osc_expr_free(c);
	g2 = evalOn(c2, by); CHECK(same(g, g2), "%s: the original gives %s, the copy of a copy %s", text.c_str(), say(g).c_str(), say(g2).c_str()); CHECK(str(rdXs(c2)) == before, "%s: its second copy is %s", text.c_str(), str(rdXs(c2)).c_str()); osc_expr_free(c2);
	CHECK(vc::live() == 0, "%s and its copies: %ld blocks remain: %s", text.c_str(), vc::live(), vc::live_desc().c_str());
}
static void lists(){
	static const std::vector<std::string> S{"/x = 1", "/x += /y", "/nope + 1", "/l = [/x, 2]", "delete(/y)", "/l[[0]] = /l[[1]]", "map(lambda([a, b], a * b), /l, /l)", "/b./m = {/k : /x}", "if(/x > 1, /y = 5, /q = 2)", "eval(quote(/y = 3))", "(lambda([a], /z = a), /x)", "\"s\" + 1"};
	for(size_t i = 0; i < S.size(); i++) CASE("lists of statements that begin with " + S[i], {
		auto B = starts(); for(size_t j = 0; j < S.size(); j++) for(size_t k = 0; k < S.size(); k++) for(auto &b : B){
			std::string t = S[i] + ", " + S[j] + ", " + S[k], by = enc(b), cur = by; std::vector<Got> w;
			for(size_t q : {i, j, k}){ Expr e(S[q]); if(!e.f) vc::fail("%s", S[q].c_str()); w.push_back(evalOn(e.f, cur)); cur = w.back().b; }
			Expr all(t); CHECK(all.f, "%s", t.c_str()); t_osc_expr *c = NULL; osc_expr_copyAllLinked(&c, all.f);
			for(int rep = 0; rep < 3; rep++){ std::string y = by; size_t q = 0; for(t_osc_expr *e = rep == 2 ? c : all.f; e; e = osc_expr_next(e), q++){ CHECK(q < 3, "%s: more than three statements", t.c_str()); Got g = evalOn(e, y); y = g.b; CHECK(same(g, w[q]), "%s: statement %zu gives %s in %s of the list, %s on its own", t.c_str(), q, say(g).c_str(), rep == 2 ? "a copy" : rep ? "the second evaluation" : "the first evaluation", say(w[q]).c_str()); } CHECK(q == 3, "%s: %zu statements", t.c_str(), q); }
			osc_expr_free(c); vc::state(vc::hex(cur.data(), cur.size()));
		}
		CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
}
// argument lists built through the interface
static t_osc_expr_arg *num(int n){ t_osc_expr_arg *a = osc_expr_arg_alloc(); t_osc_atom_u *x = osc_atom_u_alloc(); osc_atom_u_setInt32(x, n); osc_expr_arg_setOSCAtom(a, x); return a; }
static void built(){
	// edits: append or prepend a chain of one, two or three arguments
	int D = vc::tier ? 5 : 4; for(int a = 0; a < 6; a++) CASE(vc::fmt("arguments %s %d at a time first", a < 3 ? "appended" : "prepended", a % 3 + 1), {
		std::function<void(std::vector<int>)> go = [&](std::vector<int> ed){
			{ t_osc_expr *e = osc_expr_alloc(); osc_expr_setRec(e, osc_expr_lookupFunction((char *)"list")); std::vector<int> w; int n = 0; std::string h;
			for(int x : ed){ t_osc_expr_arg *c = NULL; std::vector<int> add; for(int k = 0; k <= x % 3; k++){ t_osc_expr_arg *y = num(n); add.push_back(n++); if(c) osc_expr_arg_append(c, y); else c = y; } if(x < 3){ osc_expr_appendArg(e, c); w.insert(w.end(), add.begin(), add.end()); } else { osc_expr_prependArg(e, c); w.insert(w.begin(), add.begin(), add.end()); } h += vc::fmt("%s %d; ", x < 3 ? "append" : "prepend", x % 3 + 1);
				CHECK(osc_expr_getArgCount(e) == (long)w.size(), "%s: %ld arguments are counted, want %zu", h.c_str(), osc_expr_getArgCount(e), w.size()); }
			std::string by = enc(Bndl{}); Got g = evalOn(e, by); CHECK(!g.e && g.v.size() == w.size(), "%s: %s", h.c_str(), say(g).c_str()); for(size_t k = 0; k < w.size(); k++) CHECK(g.v[k].t == 'i' && g.v[k].i == w[k], "%s: %s", h.c_str(), say(g).c_str());
			osc_expr_free(e); CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", h.c_str(), vc::live(), vc::live_desc().c_str()); }
			if((int)ed.size() < D) for(int x = 0; x < 6; x++){ auto f = ed; f.push_back(x); go(f); } };
		go({a}); });
	// a tree whose parts come from other trees
	CASE("lists given as data", { for(int n = 0; n < 4; n++){ t_osc_expr *e = osc_expr_alloc(); osc_expr_setRec(e, osc_expr_lookupFunction((char *)"sum")); t_osc_atom_ar_u *l = osc_atom_array_u_alloc(n); for(int k = 0; k < n; k++) osc_atom_u_setInt32((t_osc_atom_u *)osc_atom_array_u_get(l, k), k + 1); t_osc_expr_arg *a = osc_expr_arg_alloc(); osc_expr_arg_setList(a, l); osc_expr_setArg(e, a); t_osc_expr *c = NULL; osc_expr_copy(&c, e); std::string by = enc(Bndl{}); Got g = evalOn(e, by), g1 = evalOn(e, by); osc_expr_free(e); Got g2 = evalOn(c, by); CHECK(same(g, g1) && same(g, g2), "list of %d: %s, %s, %s", n, say(g).c_str(), say(g1).c_str(), say(g2).c_str()); if(n) CHECK(!g.e && g.v.size() == 1 && (int)(g.v[0].t == 'd' ? g.v[0].d : g.v[0].i) == n * (n + 1) / 2, "sum of 1 to %d is %s", n, say(g).c_str()); osc_expr_free(c); CHECK(vc::live() == 0, "list of %d: %ld blocks remain: %s", n, vc::live(), vc::live_desc().c_str()); } });
	// evaluation with variables bound outside
	CASE("variables bound outside", { const char *T[] = {"[a, b]", "a + b", "map(lambda([a], a + b), a)", "/x = a", "(lambda([b], [a, b]), 7)", "length(a)", "lreduce(lambda([b, c], b + c), a)", "[c, a]", "apply(lambda([c], c + a), b)"}; const char *W[] = {"[5, 6, 2]", "[7, 8]", "[7, 8]", "[5, 6]", "[5, 6, 7]", "2", "11", "[\"c\", 5, 6]", "[7, 8]"};
		for(size_t k = 0; k < sizeof T / sizeof *T; k++) for(int how = 0; how < 3; how++){ Expr e(T[k]); CHECK(e.f, "%s", T[k]); Expr w(std::string("/r = ") + W[k]); t_osc_expr_lexenv *x = osc_expr_makeLexenv(), *y = NULL;
			auto bind = [&](const char *n, std::vector<int> v){ t_osc_atom_ar_u *l = osc_atom_array_u_alloc(v.size()); for(size_t j = 0; j < v.size(); j++) osc_atom_u_setInt32((t_osc_atom_u *)osc_atom_array_u_get(l, j), v[j]); osc_expr_bindVarInLexenv(x, (char *)n, l); };
			bind("a", {5, 6}); bind("b", {2}); if(how){ osc_expr_copyLexenv(&y, x); if(how == 2){ osc_expr_destroyLexenv(x); x = NULL; } }
			std::string by = enc(Bndl{}); for(int rep = 0; rep < 2; rep++){ long len = by.size(); char *b = (char *)osc_mem_alloc(len); memcpy(b, by.data(), len); t_osc_atom_ar_u *out = NULL; int r = osc_expr_evalInLexEnv(e.f, y ? y : x, &len, &b, &out, NULL); L v; if(out){ for(long j = 0; j < osc_atom_array_u_getLen(out); j++) v.push_back(rdV((t_osc_atom_u *)osc_atom_array_u_get(out, j))); osc_atom_array_u_free(out); } osc_mem_free(b); Got g = evalOn(w.f, by); CHECK(!r && str(v) == str(g.v), "%s with a = 5 6, b = 2 (%s): %s, want %s", T[k], how == 0 ? "original" : how == 1 ? "copied" : "copied, original gone", str(v).c_str(), str(g.v).c_str()); }
			if(x) osc_expr_destroyLexenv(x); if(y) osc_expr_destroyLexenv(y); }
		CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); });
}
// statements composed of one another
static void composed(){
	static const std::vector<std::string> any{"/x", "/nope", "2", "[7, 2]", "\"/y\"", "/y = 4"}, few{"/x", "/nope", "1"}, one{"/x"}, addr{"/x", "/q"}, addr1{"/y"};
	auto with = [](std::vector<std::string> v){ v.insert(v.begin(), "a"); return v; };
	static std::vector<std::string> C, Ca; for(auto &t : T1){ fills(t, one, addr1, one, [&](const std::string &s){ C.push_back("(" + s + ")"); }); fills(t, {"a"}, addr1, {"a"}, [&](const std::string &s){ Ca.push_back("(" + s + ")"); }); }
	auto B = lands(); std::string b0 = enc(B[0]), b2 = enc(B[2]);
	for(auto &t : T1) CASE(t + " of simple operands", { auto &v = holes(t) > 3 ? few : any; fills(t, v, addr, with(v), [&](const std::string &s){ Expr e(s); if(e.f && !osc_expr_next(e.f)){ again(s, e.f, b0, b2); again(s, e.f, b2, b0); } }); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); });
	for(auto &t : T1) for(size_t h = 0; h < holes(t); h++) if(kind(t, h) != '#') CASE(vc::fmt("%s with operand %zu composed", t.c_str(), h), {
		auto &D = kind(t, h) == '~' ? Ca : C; for(auto &c : D){ std::string u; size_t q = 0; for(char d : t) if((d == '%' || d == '#' || d == '~') && q++ == h) u += c; else u += d; auto &v = vc::tier ? few : one; fills(u, v, addr1, with(v), [&](const std::string &s){ Expr e(s); if(e.f && !osc_expr_next(e.f)) again(s, e.f, b0, b2); }); if(vc::tier) fills(u, one, addr1, one, [&](const std::string &s){ outlive(s, b0); }); }
		CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); });
}
void explore(){
	auto S = starts();
	for(auto &t : themes()) for(size_t si = 0; si < S.size(); si++) for(size_t first = 0; first <= t.st.size(); first++)
		CASE(first ? vc::fmt("%s: from start %zu after %s", t.name, si, t.st[first - 1].c_str()) : vc::fmt("%s: from start %zu", t.name, si), {
			std::vector<std::unique_ptr<Expr>> F; for(auto &s : t.st){ F.emplace_back(new Expr(s)); CHECK(F.back()->f, "%s is not accepted", s.c_str()); }
			std::string by = enc(S[si]), other = enc(S[(si + 1) % S.size()]); if(first) by = evalOn(F[first - 1]->f, by).b;
			std::set<std::string> seen; auto all = [&](const std::string &y){ if(!seen.insert(y).second) return; vc::state(vc::hex(y.data(), y.size())); for(size_t k = 0; k < F.size(); k++) again(t.st[k], F[k]->f, y, other); };
			all(by); if(first) for(auto &f : F) all(evalOn(f->f, by).b);
			F.clear(); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
			for(auto &s : t.st) outlive(s, by);
		});
	auto B = lands(); auto &O = operands();
	for(auto &a : ARITY){ std::string name = a.n; if(!isalpha((unsigned char)name[0]) || name == "lambda" || name == "quickhull") continue;
		int lo = a.r, hi = std::min(lo + (a.o < 0 ? 3 : a.o), std::max(lo, 3)); size_t N = O.size();
		for(size_t p = 0; p < (lo + hi ? N : 1); p++) CASE(name + " of " + (lo + hi ? O[p] : "nothing"), {
			std::function<void(std::string, int)> go = [&](const std::string &args, int n){
				if(n >= lo){ std::string t = name + "(" + args + ")"; if(name != "quote"){ Expr e(t); CHECK(e.f, "%s is not accepted", t.c_str()); for(size_t k = 0; k < B.size(); k++) again(t, e.f, enc(B[k]), enc(B[(k + 1) % B.size()])); } Expr e("/r = " + t); if(e.f) again("/r = " + t, e.f, enc(B[0]), enc(B[1])); }
				if(n < hi) for(size_t k = 0; k < (n > 2 ? 4 : N); k++) go(args + (n ? ", " : "") + O[k], n + 1); };
			if(lo + hi == 0 || (lo == 0 && p == 0)){ std::string t = name + "()"; Expr e(t); CHECK(e.f, "%s", t.c_str()); again(t, e.f, enc(B[0]), enc(B[1])); }
			if(hi) go(O[p], 1);
			CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); }); }
	lists(); built(); composed();
}
