// C33: expressions, function records and variable bindings put together through the interface
#include "stmts.hpp"
const char *PROP = "C33";
static int DX(){ return vc::tier ? 6 : 4; }
static int DR(){ return vc::tier ? 5 : 4; }
static int DL(){ return vc::tier ? 7 : 5; }
static int DF(){ return vc::tier ? 9 : 7; }
static const char *XOP[] = {"new expression", "function list", "function apply", "append an integer", "append an address", "append text", "prepend a list", "prepend a lambda", "append the other as argument", "copy over the other", "copy the chain onto the other", "chain the other", "cut the chain", "copy the first argument to the other's end", "copy the first argument over the other's", "replace the first argument", "clear the first argument, free", "free", "swap", "append two arguments", "prepend two arguments", "prepend three arguments"};
static const int NX = sizeof XOP / sizeof *XOP;
static const char *ROP[] = {"new", "name f", "name other", "signature", "one required", "two required, typed", "two required, one unnamed", "one optional, typed", "two optional, one unnamed", "no required", "function", "extra", "copy over the other", "copy with its extra", "free", "swap", "append two arguments", "prepend two arguments", "prepend three arguments"};
static const int NR = sizeof ROP / sizeof *ROP;
std::string bounds(){ return vc::fmt("two expressions and every sequence of %d of %d edits (arguments of all kinds, copies, chains, removal), each followed by comparing the whole trees, and evaluation next to the same expression given as text; two function records and every sequence of %d of %d edits; two sets of bindings and every sequence of %d edits; every text of up to %d tokens as a function", DX(), NX, DR(), NR, DL(), DF()); }
void warmup(){}
// ---- expressions
typedef std::vector<EX> Chain;
static EX rdE(t_osc_expr *e);
static EA rdArg(t_osc_expr_arg *a){
	if(osc_expr_arg_getType(a) == OSC_EXPR_ARG_TYPE_EXPR){ t_osc_expr *e = osc_expr_arg_getExpr(a); CHECK(e && !osc_expr_next(e), "an argument is not one expression"); return ae(rdE(e)); }
	if(osc_expr_arg_getType(a) != OSC_EXPR_ARG_TYPE_LIST) return rdA(a);
	EA r; r.k = 'L'; r.e = std::make_shared<EX>(); t_osc_atom_ar_u *l = (t_osc_atom_ar_u *)osc_expr_arg_getExpr(a); CHECK(l, "a list argument without list"); for(long k = 0; k < osc_atom_array_u_getLen(l); k++) r.e->args.push_back(av(rdV((t_osc_atom_u *)osc_atom_array_u_get(l, k)))); return r;
}
static EX rdE(t_osc_expr *e){ EX r; t_osc_expr_rec *f = osc_expr_getRec(e); r.fn = f ? osc_expr_rec_getName(f) : "?"; long n = 0; for(t_osc_expr_arg *a = osc_expr_getArgs(e); a; a = osc_expr_arg_next(a)){ CHECK(++n < 60, "the arguments do not end"); r.args.push_back(rdArg(a)); } CHECK(n == osc_expr_getArgCount(e), "%ld arguments are counted, there are %ld", osc_expr_getArgCount(e), n); return r; }
static EX dup(const EX &e){ EX r; r.fn = e.fn; for(auto &a : e.args){ EA b = a; if(a.e) b.e = std::make_shared<EX>(dup(*a.e)); r.args.push_back(b); } return r; }
static std::string sh(const EX &e); static std::string sh(const EA &a){ if(a.k == 'L'){ std::string o = "{"; for(auto &x : a.e->args) o += " " + str(x.v); return o + " }"; } if(a.k == 'e') return sh(*a.e); return str(a); }
static std::string sh(const EX &e){ std::string o = "(" + e.fn; for(auto &a : e.args) o += " " + sh(a); return o + ")"; }
static std::string sh(const Chain &c){ std::string o; for(auto &e : c) o += sh(e) + " "; return o; }
static std::string tx(const EX &e);
static std::string tx(const EA &a){ switch(a.k){ case 'v': return a.v.t == 's' ? "\"" + a.v.s + "\"" : std::to_string(a.v.i); case 'a': return a.a; case 'e': return tx(*a.e); case 'L': { std::string o = "["; for(size_t k = 0; k < a.e->args.size(); k++) o += (k ? ", " : "") + tx(a.e->args[k]); return o + "]"; } default: return "lambda([a, b], [b, a, /x])"; } }
static std::string tx(const EX &e){ std::string o = e.fn + "("; for(size_t k = 0; k < e.args.size(); k++) o += (k ? ", " : "") + tx(e.args[k]); return o + ")"; }
static bool norec(const EX &e){ if(e.fn == "?") return true; for(auto &a : e.args) if(a.k == 'e' && norec(*a.e)) return true; return false; }
static t_osc_expr_rec *lambdaRec(){ Buf t(std::string("lambda([a, b], [b, a, /x])") + std::string(1, 0)); t_osc_expr_rec *r = NULL; CHECK(osc_expr_parser_parseFunction(t.p, &r, NULL) == OSC_ERR_NONE && r, "a lambda is not accepted as a function"); return r; }
static EA lambdaModel(){ EA a; a.k = 'l'; a.l = std::make_shared<EL>(); a.l->params = {"b", "a"}; std::vector<EX> r; refExpr("list(lambda([a, b], [b, a, /x]))", r); return r[0].args[0]; }
struct W {
	t_osc_expr *e[2] = {NULL, NULL}; Chain m[2]; int n = 0;
	static t_osc_expr_arg *atom(const Val &v){ t_osc_expr_arg *a = osc_expr_arg_alloc(); osc_expr_arg_setOSCAtom(a, mkV(v)); return a; }
	bool op(int o){
		Chain &A = m[0], &B = m[1]; t_osc_expr *&a = e[0], *&b = e[1];
		switch(o){
		case 0: if(a) return false; a = osc_expr_alloc(); A = {EX{"?", {}}}; break;
		case 1: case 2: if(!a) return false; osc_expr_setRec(a, osc_expr_lookupFunction((char *)(o == 1 ? "list" : "apply"))); A[0].fn = o == 1 ? "list" : "apply"; break;
		case 3: if(!a) return false; n++; osc_expr_appendArg(a, atom(vi('i', n))); A[0].args.push_back(av(vi('i', n))); break;
		case 4: { if(!a) return false; t_osc_expr_arg *g = osc_expr_arg_alloc(); char *s = (char *)osc_mem_alloc(3); memcpy(s, "/x", 3); osc_expr_arg_setOSCAddress(g, s); osc_expr_appendArg(a, g); A[0].args.push_back(aa("/x")); break; }
		case 5: if(!a) return false; osc_expr_appendArg(a, atom(vs("length"))); A[0].args.push_back(av(vs("length"))); break;
		case 6: { if(!a) return false; n++; t_osc_atom_ar_u *l = osc_atom_array_u_alloc(2); osc_atom_u_setInt32((t_osc_atom_u *)osc_atom_array_u_get(l, 0), n); osc_atom_u_setString((t_osc_atom_u *)osc_atom_array_u_get(l, 1), (char *)"length"); t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setList(g, l); osc_expr_prependArg(a, g);
			EA x; x.k = 'L'; x.e = std::make_shared<EX>(EX{"", {av(vi('i', n)), av(vs("length"))}}); A[0].args.insert(A[0].args.begin(), x); break; }
		case 7: { if(!a) return false; t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setFunction(g, lambdaRec()); osc_expr_prependArg(a, g); A[0].args.insert(A[0].args.begin(), lambdaModel()); break; }
		case 8: { if(!a || B.size() != 1) return false; t_osc_expr_arg *g = osc_expr_arg_alloc(); osc_expr_arg_setExpr(g, b); osc_expr_appendArg(a, g); A[0].args.push_back(ae(B[0])); B.clear(); b = NULL; break; }
		case 9: if(!a) return false; osc_expr_copy(&b, a); if(B.empty()) B.push_back(dup(A[0])); else B[0] = dup(A[0]); break;
		case 10: if(!a) return false; osc_expr_copyAllLinked(&b, a); for(auto &x : Chain(A)) B.push_back(dup(x)); break;
		case 11: if(!a || !b) return false; osc_expr_appendExpr(a, b); A.insert(A.end(), B.begin(), B.end()); B.clear(); b = NULL; break;
		case 12: { if(!a) return false; t_osc_expr *t = osc_expr_next(a); CHECK(!t == (A.size() == 1), "the chain ends early"); osc_expr_setNext(a, NULL); osc_expr_free(t); A.resize(1); break; }
		case 13: { if(!a || !b || A[0].args.empty()) return false; t_osc_expr_arg *c = NULL; CHECK(osc_expr_arg_copy(&c, osc_expr_getArgs(a)) == OSC_ERR_NONE && c, "no copy"); osc_expr_appendArg(b, c); EX t = dup(A[0]); B[0].args.push_back(t.args[0]); break; }
		case 14: { if(!a || !b || A[0].args.empty() || B[0].args.empty()) return false; t_osc_expr_arg *c = osc_expr_getArgs(b); CHECK(osc_expr_arg_copy(&c, osc_expr_getArgs(a)) == OSC_ERR_NONE && c == osc_expr_getArgs(b), "no copy"); EX t = dup(A[0]); B[0].args[0] = t.args[0]; break; }
		case 15: { if(!a || A[0].args.empty()) return false; n++; osc_expr_arg_clear(osc_expr_getArgs(a)); osc_expr_arg_setOSCAtom(osc_expr_getArgs(a), mkV(vi('i', n))); A[0].args[0] = av(vi('i', n)); break; }
		case 16: if(!a || A[0].args.empty()) return false; osc_expr_arg_clear(osc_expr_getArgs(a)); osc_expr_free(a); a = NULL; A.clear(); break;
		case 17: if(!a) return false; osc_expr_free(a); a = NULL; A.clear(); break;
		case 18: std::swap(A, B); std::swap(a, b); break;
		case 19: case 20: case 21: { if(!a) return false; int c = o == 21 ? 3 : 2; t_osc_expr_arg *h = NULL, *t = NULL; std::vector<EA> v; for(int k = 0; k < c; k++){ n++; t_osc_expr_arg *g = atom(vi('i', n)); v.push_back(av(vi('i', n))); if(h && o == 19) osc_expr_arg_append(h, g); else if(t) osc_expr_arg_setNext(t, g); if(!h) h = g; t = g; CHECK(!osc_expr_arg_next(t), "a new argument has a successor"); }
			if(o == 19) osc_expr_appendArg(a, h); else osc_expr_prependArg(a, h); A[0].args.insert(o == 19 ? A[0].args.end() : A[0].args.begin(), v.begin(), v.end()); break; }
		}
		return true;
	}
	void observe(){ for(int k = 0; k < 2; k++){ Chain g; for(t_osc_expr *x = e[k]; x; x = osc_expr_next(x)){ g.push_back(rdE(x)); CHECK(g.size() < 40, "the chain does not end"); } CHECK(sh(g) == sh(m[k]), "expression %d is %s, want %s", k + 1, sh(g).c_str(), sh(m[k]).c_str()); } vc::trans(); }
	void evaluate(){
		static std::set<std::string> seen; std::string by = enc(Bndl{0, {Msg{"/x", {vi('i', 70)}}}});
		for(int k = 0; k < 2; k++){ size_t q = 0; for(t_osc_expr *x = e[k]; x; x = osc_expr_next(x), q++){ const EX &M = m[k][q]; if(norec(M) || !seen.insert(sh(M)).second) continue; std::string t = tx(M); Expr w(t); if(!w.f) continue;
			long l0 = vc::live(); Got g = evalOn(x, by), h = evalOn(w.f, by); CHECK(!!g.e == !!h.e && g.b == h.b && str(g.v) == str(h.v), "%s evaluates to %s, the text %s to %s", sh(M).c_str(), g.e ? "an error" : str(g.v).c_str(), t.c_str(), h.e ? "an error" : str(h.v).c_str());
			CHECK(vc::live() == l0, "%ld blocks remain after evaluating %s: %s", vc::live() - l0, sh(M).c_str(), vc::live_desc().c_str()); vc::trans(); vc::count("built expressions evaluated"); } }
	}
	~W(){ osc_expr_free(e[0]); osc_expr_free(e[1]); }
};
static std::string names(const std::vector<int> &s, const char **n){ std::string r; for(int x : s) r += std::string(r.empty() ? "" : "; ") + n[x]; return r; }
static bool xrun(const std::vector<int> &s){
	bool ok = true; try{ W w; for(size_t k = 0; k < s.size(); k++){ if(!w.op(s[k])){ ok = false; break; } if(k + 1 == s.size() || vc::tier) w.observe(); } if(ok){ w.evaluate(); vc::state(sh(w.m[0]) + "|" + sh(w.m[1])); } }
	catch(vc::Fail &f){ vc::fail("%s: %s", names(s, XOP).c_str(), f.msg.c_str()); }
	CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", names(s, XOP).c_str(), vc::live(), vc::live_desc().c_str()); return ok;
}
// ---- function records
struct R { bool on = false; std::string name, sig; bool hn = false, hs = false; std::vector<std::string> rn, on_; std::vector<int> rt, ot; bool hrt = false, hot = false, fun = false; long ex = 0; };
static int dummy(t_osc_expr *, int, t_osc_atom_ar_u **, t_osc_atom_ar_u **, void *){ return 0; }
static void cpx(void **d, void *s){ *d = (void *)((long)s + 1); }
static void rlook(t_osc_expr_rec *r, const R &m, int k){
	if(!m.on) return; auto s = [&](const char *w, char *g, bool h, const std::string &v){ CHECK(!g == !h && (!h || v == g), "record %d has the %s %s, want %s", k, w, g ? g : "none", h ? v.c_str() : "none"); };
	s("name", osc_expr_rec_getName(r), m.hn, m.name); s("signature", osc_expr_rec_getSignature(r), m.hs, m.sig); s("documentation", osc_expr_rec_getDocstring(r), false, "");
	auto ar = [&](const char *w, int n, char **nm, int *ty, const std::vector<std::string> &v, bool ht, const std::vector<int> &t){ CHECK(n == (int)v.size(), "record %d has %d %s arguments, want %zu", k, n, w, v.size()); for(int i = 0; i < n; i++) s(w, nm[i], v[i] != "-", v[i]); CHECK(n == 0 || !ty == !ht, "the %s arguments of record %d have %stypes", w, k, ty ? "" : "no "); if(n && ht) for(int i = 0; i < n; i++) CHECK(ty[i] == t[i], "%s argument %d of record %d has the types %d, want %d", w, i, k, ty[i], t[i]); };
	ar("required", osc_expr_rec_getNumRequiredArgs(r), osc_expr_rec_getRequiredArgsNames(r), osc_expr_rec_getRequiredArgsTypes(r), m.rn, m.hrt, m.rt);
	ar("optional", osc_expr_rec_getNumOptionalArgs(r), osc_expr_rec_getOptionalArgsNames(r), osc_expr_rec_getOptionalArgsTypes(r), m.on_, m.hot, m.ot);
	CHECK((osc_expr_rec_getFunction(r) == dummy) == m.fun && (m.fun || !osc_expr_rec_getFunction(r)), "the function of record %d", k); CHECK((long)osc_expr_rec_getExtra(r) == m.ex, "record %d has the extra %ld, want %ld", k, (long)osc_expr_rec_getExtra(r), m.ex); vc::trans();
}
static bool rrun(const std::vector<int> &s){
	t_osc_expr_rec *r[2] = {NULL, NULL}; R m[2]; bool ok = true;
	try{ for(int o : s){ t_osc_expr_rec *&a = r[0], *&b = r[1]; R &A = m[0], &B = m[1]; if(!A.on && o != 0 && o != 15){ ok = false; break; }
		auto req = [&](bool opt, std::vector<std::string> v, std::vector<int> t){ std::vector<Buf *> keep; std::vector<char *> p; for(auto &x : v){ if(x == "-"){ p.push_back(NULL); continue; } keep.push_back(new Buf(x + std::string(1, 0))); p.push_back(keep.back()->p); } p.push_back(NULL);
			(opt ? osc_expr_rec_setOptionalArgs : osc_expr_rec_setRequiredArgs)(a, v.size(), p.data(), t.size() ? t.data() : NULL); for(auto *k : keep) delete k; if(opt){ A.on_ = v; A.ot = t; A.hot = t.size(); } else { A.rn = v; A.rt = t; A.hrt = t.size(); } };
		switch(o){
		case 0: if(A.on){ ok = false; break; } a = osc_expr_rec_alloc(); A.on = true; break;
		case 1: case 2: { std::string n = o == 1 ? "f" : "anothername"; Buf t(n + std::string(1, 0)); osc_expr_rec_setName(a, t.p); A.hn = true; A.name = n; break; }
		case 3: { Buf t(std::string("a, b -> c") + std::string(1, 0)); osc_expr_rec_setSignature(a, t.p); A.hs = true; A.sig = "a, b -> c"; break; }
		case 4: req(false, {"p"}, {}); break; case 5: req(false, {"p", "quite a long one"}, {7, 0x20}); break; case 6: req(false, {"-", "q"}, {}); break; case 7: req(true, {"o"}, {3}); break; case 8: req(true, {"o", "-"}, {}); break; case 9: req(false, {}, {}); break;
		case 10: osc_expr_rec_setFunction(a, dummy); A.fun = true; break; case 11: osc_expr_rec_setExtra(a, (void *)5); A.ex = 5; break;
		case 12: case 13: { if(o == 13 && B.ex){ ok = false; break; } osc_expr_rec_copy(&b, a, o == 13 ? cpx : NULL); long ex = B.ex; B = A; B.ex = o == 13 && A.ex ? A.ex + 1 : ex; break; }
		case 14: { void *x = (void *)99; osc_expr_rec_free(a, &x); CHECK((long)x == A.ex, "freeing gives back the extra %ld, want %ld", (long)x, A.ex); a = NULL; A = R(); break; }
		case 15: std::swap(a, b); std::swap(A, B); break;
		}
		if(!ok) break; rlook(r[0], m[0], 1); rlook(r[1], m[1], 2); }
	}catch(vc::Fail &f){ vc::fail("%s: %s", names(s, ROP).c_str(), f.msg.c_str()); }
	osc_expr_rec_free(r[0], NULL); osc_expr_rec_free(r[1], NULL);
	if(ok) vc::state("r" + names(s, ROP)); CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", names(s, ROP).c_str(), vc::live(), vc::live_desc().c_str()); return ok;
}
// ---- bindings
static const char *VAR[] = {"a", "ab", "b"};
static bool lrun(const std::vector<int> &s){
	t_osc_expr_lexenv *l[2] = {osc_expr_makeLexenv(), NULL}; std::map<std::string, int> m[2]; int n = 0; std::string h;
	for(int o : s){ n++; if(o < 3){ t_osc_atom_ar_u *v = osc_atom_array_u_alloc(2); osc_atom_u_setInt32((t_osc_atom_u *)osc_atom_array_u_get(v, 0), n); osc_atom_u_setString((t_osc_atom_u *)osc_atom_array_u_get(v, 1), (char *)"some text that is not short"); Buf t(std::string(VAR[o]) + std::string(1, 0)); osc_expr_bindVarInLexenv(l[0], t.p, v); m[0][VAR[o]] = n; h += vc::fmt("bind %s; ", VAR[o]); }
		else if(o == 3){ if(l[1]) osc_expr_destroyLexenv(l[1]); l[1] = NULL; osc_expr_copyLexenv(&l[1], l[0]); m[1] = m[0]; h += "copy; "; } else { if(!l[1]) l[1] = osc_expr_makeLexenv(); std::swap(l[0], l[1]); std::swap(m[0], m[1]); h += "swap; "; }
		for(int k = 0; k < 2; k++) if(l[k]) for(const char *v : {"a", "ab", "b", "", "abc"}){ Buf t(std::string(v) + std::string(1, 0)); t_osc_atom_ar_u *g = osc_expr_lookupBindingInLexenv(l[k], t.p); CHECK(!g == !m[k].count(v), "%s%s is %sbound in set %d", h.c_str(), v, g ? "" : "not ", k + 1); if(!g) continue; CHECK(osc_atom_array_u_getLen(g) == 2 && osc_atom_u_getInt32((t_osc_atom_u *)osc_atom_array_u_get(g, 0)) == m[k][v] && osc_atom_u_getStringPtr((t_osc_atom_u *)osc_atom_array_u_get(g, 1)) && !strcmp(osc_atom_u_getStringPtr((t_osc_atom_u *)osc_atom_array_u_get(g, 1)), "some text that is not short"), "%s%s in set %d is bound to value %d, want %d", h.c_str(), v, k + 1, osc_atom_u_getInt32((t_osc_atom_u *)osc_atom_array_u_get(g, 0)), m[k][v]); vc::trans(); } }
	for(int k = 0; k < 2; k++) if(l[k]) osc_expr_destroyLexenv(l[k]); vc::state("l" + h); CHECK(vc::live() == 0, "%s%ld blocks remain: %s", h.c_str(), vc::live(), vc::live_desc().c_str()); return true;
}
// ---- texts of functions
static bool function(const std::string &s){
	std::vector<EX> w; bool more = false, ok = refExpr("list(" + s + ")", w, &more) && w.size() == 1 && w[0].fn == "list" && w[0].args.size() == 1 && w[0].args[0].k == 'l'; bool un = false; { std::vector<EX> x; bool mm = false; refExpr("list(" + s, x, &mm); un = mm || ok; }
	long er = vc::errors_reported; Buf t(s + std::string(1, 0)); t_osc_expr_rec *f = (t_osc_expr_rec *)&w; t_osc_err e = osc_expr_parser_parseFunction(t.p, &f, NULL); vc::trans();
	CHECK((e == OSC_ERR_NONE) == ok, "the function %s is %s", vc::q(s).c_str(), ok ? "rejected" : "accepted");
	if(ok){ CHECK(f && f != (t_osc_expr_rec *)&w, "no function for %s", vc::q(s).c_str()); t_osc_expr_arg *a = osc_expr_arg_alloc(); osc_expr_arg_setFunction(a, f); EA g = rdA(a); CHECK(str(g) == str(w[0].args[0]), "%s is read as %s, want %s", vc::q(s).c_str(), str(g).c_str(), str(w[0].args[0]).c_str()); osc_expr_arg_free(a); vc::count("functions read"); vc::state(str(g)); }
	else { CHECK(!f, "%s is rejected but gives a function", vc::q(s).c_str()); CHECK(vc::errors_reported > er, "%s is rejected without a report", vc::q(s).c_str()); }
	CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", vc::q(s).c_str(), vc::live(), vc::live_desc().c_str()); return un;
}
template<class F> static void seqs(F run, int n, int depth, std::vector<int> s){ std::function<void()> g = [&]{ if(!run(s)) return; if((int)s.size() < depth) for(int k = 0; k < n; k++){ s.push_back(k); g(); s.pop_back(); } }; g(); }
void explore(){
	CASE("two ready expressions", { for(int k = 0; k < NX; k++) xrun({0, k}); });
	// from scratch, and from two expressions with arguments
	for(int a = 0; a < NX; a++) for(int b = 0; b < NX; b++) for(int st = 0; st < 4; st++){ static const std::vector<int> S[] = {{0}, {0, 1, 3, 18, 0, 1, 4, 3}, {0, 1, 3, 5, 18, 0, 2, 3, 4, 7}, {0, 1, 6, 10, 18, 10, 3, 9}};
		CASE(vc::fmt("%s; then %s; %s ...", names(S[st], XOP).c_str(), XOP[a], XOP[b]), { std::vector<int> s = S[st]; s.push_back(a); s.push_back(b); seqs(xrun, NX, (int)S[st].size() + DX(), s); }); }
	for(int a = 0; a < NR; a++) for(int b = 0; b < NR; b++) CASE(vc::fmt("records: new; %s; %s ...", ROP[a], ROP[b]), { seqs(rrun, NR, DR() + 1, {0, a, b}); if(a == 0) seqs(rrun, NR, DR() + 4, {0, 1, 5, 7, 12, b}); });
	for(int a = 0; a < 5; a++) for(int b = 0; b < 5; b++) CASE(vc::fmt("bindings: edits %d, %d ...", a, b), { seqs(lrun, 5, DL(), {a, b}); });
	CASE("nothing", { osc_expr_free(NULL); t_osc_expr *n = NULL; osc_expr_copy(&n, NULL); osc_expr_copyAllLinked(&n, NULL); CHECK(!n, "a copy of nothing"); osc_expr_appendExpr(NULL, NULL); t_osc_expr *e = osc_expr_alloc(); osc_expr_appendExpr(e, NULL); CHECK(!osc_expr_next(e), "nothing was chained"); osc_expr_appendArg(e, NULL); osc_expr_prependArg(e, NULL); CHECK(osc_expr_getArgCount(e) == 0 && !osc_expr_getArgs(e), "arguments"); osc_expr_free(e); osc_expr_rec_free(NULL, NULL); t_osc_expr_rec *r = NULL; osc_expr_rec_copy(&r, NULL, NULL); CHECK(!r, "a copy of no record"); char *nm[] = {(char *)"a"}; osc_expr_rec_setName(NULL, nm[0]); osc_expr_rec_setSignature(NULL, nm[0]); osc_expr_rec_setRequiredArgs(NULL, 1, nm, NULL); osc_expr_rec_setOptionalArgs(NULL, 1, nm, NULL); osc_expr_rec_setFunction(NULL, dummy); osc_expr_rec_setExtra(NULL, nm); CHECK(!osc_expr_rec_getName(NULL) && !osc_expr_rec_getSignature(NULL) && !osc_expr_rec_getExtra(NULL) && osc_expr_rec_getNumRequiredArgs(NULL) == 0, "nothing has properties"); osc_expr_arg_clear(NULL); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); });
	CASE("records of the built-in functions, copied", { for(auto &a : ARITY){ t_osc_expr_rec *r = osc_expr_lookupFunction((char *)a.n), *c = NULL; CHECK(r, "%s", a.n); osc_expr_rec_copy(&c, r, NULL); CHECK(c, "no copy of %s", a.n); CHECK(!strcmp(osc_expr_rec_getName(c), a.n) && osc_expr_rec_getFunction(c) == osc_expr_rec_getFunction(r) && osc_expr_rec_getNumRequiredArgs(c) == osc_expr_rec_getNumRequiredArgs(r) && osc_expr_rec_getNumOptionalArgs(c) == osc_expr_rec_getNumOptionalArgs(r), "%s", a.n);
		for(int q = 0; q < 2; q++){ int n = q ? osc_expr_rec_getNumOptionalArgs(r) : osc_expr_rec_getNumRequiredArgs(r); char **x = q ? osc_expr_rec_getOptionalArgsNames(r) : osc_expr_rec_getRequiredArgsNames(r), **y = q ? osc_expr_rec_getOptionalArgsNames(c) : osc_expr_rec_getRequiredArgsNames(c); int *t = q ? osc_expr_rec_getOptionalArgsTypes(r) : osc_expr_rec_getRequiredArgsTypes(r), *u = q ? osc_expr_rec_getOptionalArgsTypes(c) : osc_expr_rec_getRequiredArgsTypes(c); CHECK(!x == !y && !t == !u || n <= 0, "the %s arguments of the copy of %s", q ? "optional" : "required", a.n); for(int k = 0; k < n; k++){ if(x) CHECK(!x[k] == !y[k] && (!x[k] || !strcmp(x[k], y[k])), "argument %d of the copy of %s", k, a.n); if(t && x && x[k]) CHECK(t[k] == u[k], "the types of argument %d of the copy of %s", k, a.n); } }
		CHECK(osc_expr_rec_getDocstring(c) && !strcmp(osc_expr_rec_getDocstring(c), osc_expr_rec_getDocstring(r)), "documentation of the copy of %s", a.n); CHECK(osc_expr_rec_getCategories(c) == osc_expr_rec_getCategories(r), "categories of the copy of %s", a.n); osc_expr_rec_free(c, NULL); vc::trans(); CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", a.n, vc::live(), vc::live_desc().c_str()); } });
	static const std::vector<std::string> T{"lambda(", "[", "a", "]", ",", "1", ")", "+", "/x", "\"", "lambda([a],", "b", "=", "lambda([a], a)"};
	for(auto &x : T) for(auto &y : T) CASE("functions " + x + " " + y + " ...", { int n = 2; std::string s = x + " " + y; if(&y == &T[0]) function(x); std::function<void()> g = [&]{ if(!function(s) || n == DF()) return; for(auto &t : T){ std::string o = s; s += " " + t; n++; g(); n--; s = o; } }; g(); });
	CASE("no function", { function(""); function(" "); function("sin"); function("/a"); function("lambda"); function("lambda([a], a), 1"); function("lambda([a], a)) + 1"); function("# comment\nlambda([a, b, c], a, b, c)"); function("lambda([a], \"text\\\"\")"); function("lambda([a], lambda([b], a + b))"); });
}
