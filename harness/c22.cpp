// C22: operators and broadcasting
#include "eval.hpp"
const char *PROP = "C22";
static int LL(){ return vc::tier ? 7 : 4; }
std::string bounds(){ return vc::fmt("every operator, increment, negation and elementary function over all %s pairs of boundary values of every type, all pairs of list lengths 0..%d with every rotation of a mixed list, lists of up to %d values against shorter, equal and longer ones, comparison laws for all value pairs%s", vc::tier ? "(about 300 squared)" : "(about 130 squared)", LL(), vc::tier ? 1000 : 300, vc::tier ? " and all triples of numbers" : ""); }
void warmup(){}
static std::vector<Val> values(){
	std::vector<Val> r{vt('T'), vt('F'), vt('N')};
	auto I = [&](char t, std::vector<int64_t> x){ for(auto v : x) r.push_back(vi(t, v)); };
	I('c', {0, 1, 2, 7, -1, -7, 127, -128, 'a'}); I('C', {0, 1, 3, 7, 127, 128, 255, 251}); I('u', {0, 1, 10, -1, -7, 32767, -32768, 300}); I('U', {0, 1, 7, 32768, 65535, 65533, 300});
	I('i', {0, 1, 2, 3, -1, -2, -7, 7, 46341, 65536, INT32_MAX, INT32_MIN, INT32_MIN + 1, 16777217}); I('I', {0, 1, 7, 0x80000000ll, 0xffffffffll, 0xfffffffbll, 65536});
	I('h', {0, 1, -1, 7, -7, INT64_MAX, INT64_MIN, INT64_MIN + 1, 1ll << 32, (1ll << 32) + 1, -(1ll << 32), (1ll << 53) + 1, 1ll << 53, 0x100000000ll * 7, 3037000500ll}); I('H', {0, 1, 7, INT64_MIN, -1, 1ll << 32, -5, (1ll << 53) + 1});
	for(char t : {'f', 'd'}) for(double d : {0., -0., 1., -1., .5, -2.5, 7., 3e9, 1e10, 1e300, -1e300, 5e-324, (double)INFINITY, -(double)INFINITY, (double)NAN, 16777216., 9007199254740992., .1}) r.push_back(vd(t, d));
	for(auto s : {"", "a", "ab", "b", "7", "-3.5", "\xff", "a%n"}) r.push_back(vs(s));
	r.push_back(vblob("")); r.push_back(vblob("xyz")); r.push_back(vi('t', 1)); r.push_back(vi('t', 0x0000000a80000000ll)); r.push_back(vi('t', 0x83aa7e8000000000ll)); r.push_back(vi('t', (int64_t)0xffffffffffffffffull));
	r.push_back(vb(Bndl{})); r.push_back(vb(Bndl{0, {Msg{"/x", {vi('i', 1)}}}})); r.push_back(vb(Bndl{0, {Msg{"/x", {vi('i', 2)}}}})); r.push_back(vb(Bndl{0, {Msg{"/x", {vi('i', 1)}}, Msg{"/y", {}}}}));
	if(vc::tier){
		for(int k = 3; k < 64; k += 4) for(int j : {-1, 0, 1}){ int64_t v = ((int64_t)1 << k) + j; if(k < 31){ r.push_back(vi('i', v)); r.push_back(vi('i', -v)); } if(k < 32) r.push_back(vi('I', v)); r.push_back(vi('h', v)); r.push_back(vi('H', v)); if(k < 7) r.push_back(vi('c', v)); if(k < 15) r.push_back(vi('u', -v)); }
		for(int k = -70; k < 70; k += 9) for(double m : {1., -1.75}) r.push_back(vd(k % 2 ? 'f' : 'd', ldexp(m, k)));
	}
	return r;
}
// operands of an operator, encoded once
static long live0;
static std::string bytesOf(const L &a, const L &b){ return enc(Bndl{5, {Msg{"/other", {vi('i', 42)}}, Msg{"/a", a}, Msg{"/b", b}}}); }
static void judge(const char *text, t_osc_expr *f, const std::string &fn, const std::vector<L> &a, Got *out = NULL){
	L w; int kind = 0; try{ if(!callOp(fn, a, w)) abort(); }catch(EErr &){ kind = 1; }catch(Skip &){ kind = 2; }
	std::string by = bytesOf(a[0], a.size() > 1 ? a[1] : L{}); long er = vc::errors_reported; Got g = evalOn(f, by);
	std::string where = std::string(text) + " with /a = " + str(a[0]) + (a.size() > 1 ? ", /b = " + str(a[1]) : "");
	CHECK(g.b == by, "%s changed the bundle", where.c_str());
	if(kind == 1){ CHECK(g.e, "%s gives %s instead of an error", where.c_str(), str(g.v).c_str()); }
	else if(kind == 0){ CHECK(!g.e, "%s is an error, want %s", where.c_str(), str(w).c_str()); CHECK(eqw(w, g.v), "%s gives %s, want %s", where.c_str(), str(g.v).c_str(), str(w).c_str()); vc::state(where); }
	vc::count(kind == 1 ? "errors" : kind ? "unspecified" : "values");
	if(kind == 0) CHECK(vc::errors_reported == er, "%s reports an error and gives %s", where.c_str(), str(g.v).c_str());
	CHECK(vc::live() == live0, "%s: %ld blocks remain: %s", where.c_str(), vc::live() - live0, vc::live_desc().c_str());
	if(out) *out = g;
}
void explore(){
	auto V = values(); size_t N = V.size();
	static const char *OPS[] = {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&", "|", "add", "sub", "mul", "div", "mod", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "pow", "^", "atan2", "fmod", "hypot", "remainder", "jn", "yn"};
	for(const char *op : OPS){
		bool infix = ispunct((unsigned char)*op); std::string text = infix ? std::string("/a ") + op + " /b" : std::string(op) + "(/a, /b)", fn = !strcmp(op, "^") ? "pow" : canon(op); bool same = fn != op && fn != "pow";
		for(size_t i = 0; i < N; i++){ if(same && i % 5) continue; CASE(text + " with /a = " + str(V[i]), { Expr f(text); CHECK(f.f, "parse"); live0 = vc::live(); for(size_t j = 0; j < N; j++){ if((fn == "jn" || fn == "yn") && isnum(V[i].t) && !(fabs(toD(V[i])) <= 200)) continue; judge(text.c_str(), f.f, fn, {{V[i]}, {V[j]}}); } }); }
		// lengths
		std::vector<Val> mix{vi('i', 7), vd('f', 2.5), vi('h', -3), vi('c', 5), vt('T'), vi('U', 9), vd('d', -.25), vi('I', 4), vi('i', 0)};
		for(int la = 0; la <= LL(); la++) for(int lb = 0; lb <= LL(); lb++) CASE(vc::fmt("%s with lists of %d and %d", text.c_str(), la, lb), { Expr f(text); live0 = vc::live();
			for(size_t ra = 0; ra < mix.size(); ra++) for(size_t rb = 0; rb < mix.size(); rb++){ L a, b; for(int k = 0; k < la; k++) a.push_back(mix[(ra + k) % mix.size()]); for(int k = 0; k < lb; k++) b.push_back(mix[(rb + 2 * k) % mix.size()]); judge(text.c_str(), f.f, fn, {a, b}); }
			// a bad operand anywhere makes the whole an error
			for(Val bad : {vblob("q"), vs("s"), vt('N')}) for(int p = 0; p < la + lb; p++){ L a, b; for(int k = 0; k < la; k++) a.push_back(k == p ? bad : vi('i', k + 1)); for(int k = 0; k < lb; k++) b.push_back(k + la == p ? bad : vi('i', 2 * k + 1)); judge(text.c_str(), f.f, fn, {a, b}); } });
	}
	// long lists
	for(const char *op : {"+", "-", "*", "/", "%", "<", ">=", "==", "!=", "&", "|", "add", "pow", "atan2", "hypot"}) CASE(vc::fmt("%s of long lists", op), { bool infix = ispunct((unsigned char)*op); std::string text = infix ? std::string("/a ") + op + " /b" : std::string(op) + "(/a, /b)", fn = canon(op); Expr f(text); CHECK(f.f, "parse"); live0 = vc::live();
		auto mk = [](int n, int s){ L l; for(int k = 0; k < n; k++) l.push_back((k + s) % 5 == 0 ? vd('d', k * .5 + s) : (k + s) % 5 == 1 ? vi('h', k - s) : (k + s) % 5 == 2 ? vd('f', 3 + k) : vi('i', k * 3 - 50 * s)); return l; };
		for(int n = 1; n <= (vc::tier ? 1000 : 300); n++) if(vc::look(n)) for(int m : {1, 2, n / 2, n - 1, n, n + 1}) for(int s = 0; s < 2; s++){ judge(text.c_str(), f.f, fn, {mk(n, s), mk(m, 1)}); judge(text.c_str(), f.f, fn, {mk(m, s), mk(n, 2)}); } });
	std::vector<std::string> U{"!", "not", "plus1", "minus1", "ilogb"}; for(auto &k : fun1()) U.push_back(k.first);
	for(auto &u : U){ std::string text = u == "!" ? "!/a" : u + "(/a)", fn = canon(u);
		CASE(text, { Expr f(text); CHECK(f.f, "parse"); live0 = vc::live(); for(auto &v : V){ judge(text.c_str(), f.f, fn, {{v}}); judge(text.c_str(), f.f, fn, {{v, vi('h', 1), v}}); } judge(text.c_str(), f.f, fn, {{}}); for(int n = 0; n < 9; n++) for(size_t r = 0; r < N; r += 3){ L a; for(int k = 0; k < n; k++) a.push_back(V[(r + 17 * k) % N]); judge(text.c_str(), f.f, fn, {a}); } for(int n = 9; n <= 300; n++) if(vc::look(n)) for(int r = 0; r < 2; r++){ L a; for(int k = 0; k < n; k++) a.push_back(vd(k % 2 ? 'd' : 'f', (k + r) * .01)); if(r) a[n / 2] = vi('h', 1); judge(text.c_str(), f.f, fn, {a}); } }); }
	for(auto &k : consts()) CASE(k.first + "()", { Expr f(k.first + "()"); CHECK(f.f, "parse"); Got g = evalOn(f.f, ""); CHECK(!g.e && g.v.size() == 1 && g.v[0].t == 'd' && fabs(g.v[0].d - k.second) <= 1e-6 * k.second, "%s() gives %s, want %.17g", k.first.c_str(), str(g.v).c_str(), k.second); });
	// comparisons agree with each other
	static const char *R[] = {"<", "<=", ">", ">=", "==", "!="};
	for(size_t i = 0; i < N; i++) CASE("comparisons of " + str(V[i]), {
		std::vector<std::unique_ptr<Expr>> f; for(const char *r : R){ f.emplace_back(new Expr(std::string("/a ") + r + " /b")); f.emplace_back(new Expr(std::string("/b ") + r + " /a")); } live0 = vc::live();
		for(size_t j = 0; j < N; j++){ std::string by = bytesOf({V[i]}, {V[j]}); int v[12]; for(int k = 0; k < 12; k++){ Got g = evalOn(f[k]->f, by); CHECK(g.e || (g.v.size() == 1 && isBool(g.v[0].t)), "comparison of %s and %s gives %s", str(V[i]).c_str(), str(V[j]).c_str(), str(g.v).c_str()); v[k] = g.e ? -1 : g.v[0].t == 'T'; }
			std::string p = str(V[i]) + " and " + str(V[j]); bool nan = (isflt(V[i].t) && V[i].d != V[i].d) || (isflt(V[j].t) && V[j].d != V[j].d), strnum = (V[i].t == 's') != (V[j].t == 's');
			int lt = v[0], le = v[2], gt = v[4], ge = v[6], eq = v[8], ne = v[10];
			CHECK(lt == v[5] && le == v[7] && gt == v[1] && ge == v[3] && eq == v[9] && ne == v[11], "%s: a < b and b > a and the like disagree", p.c_str());
			CHECK((eq < 0) == (ne < 0) && (eq < 0 || eq != ne), "%s: == gives %d, != gives %d", p.c_str(), eq, ne);
			CHECK((lt < 0) == (gt < 0) && (le < 0) == (ge < 0) && (lt < 0) == (le < 0), "%s: some orderings are errors", p.c_str());
			if(lt >= 0 && !nan){ CHECK(lt != ge && gt != le, "%s: < %d, >= %d, > %d, <= %d", p.c_str(), lt, ge, gt, le); if(!strnum) CHECK(lt + gt + eq == 1, "%s: < %d, > %d, == %d", p.c_str(), lt, gt, eq); }
			CHECK(vc::live() == live0, "%s: %ld blocks remain", p.c_str(), vc::live() - live0); } });
	if(vc::tier) for(size_t i = 0; i < N; i++) if(isnum(V[i].t)) CASE("transitivity from " + str(V[i]), { Expr f("/a <= /b"); live0 = vc::live(); L nums; for(auto &v : V) if(isnum(v.t) && !(isflt(v.t) && v.d != v.d)) nums.push_back(v); std::vector<std::vector<char>> le(nums.size());
		if(isflt(V[i].t) && V[i].d != V[i].d) return; Got a = evalOn(f.f, bytesOf({V[i]}, nums)); for(size_t j = 0; j < nums.size(); j++) if(a.v[j].t == 'T'){ Got b = evalOn(f.f, bytesOf({nums[j]}, nums)); for(size_t k = 0; k < nums.size(); k++) CHECK(b.v[k].t != 'T' || a.v[k].t == 'T', "%s <= %s <= %s", str(V[i]).c_str(), str(nums[j]).c_str(), str(nums[k]).c_str()); } });
}
