// C09: union, intersection, difference of encoded and in-memory bundles over all pairs of small bundles
#include "ref.hpp"
const char *PROP = "C09";
static const char *ADDR[] = {"/a", "/b", "/a/b", "/ab", "/c/longer/address"};
static int maxn(){ return vc::tier ? 4 : 3; }
std::string bounds(){ return vc::fmt("every ordered pair of bundles of 0..%d messages over %d addresses (repeats included) plus an absent bundle, encoded and in memory, caller-provided and allocated results; bundles of up to 257 by 129 messages of distinct addresses in four overlaps", maxn(), (int)(sizeof ADDR / sizeof *ADDR)); }
void warmup(){}
static Bndl mk(const std::vector<int> &a, int side){
	Bndl b; b.tt = side ? 0x900000009ull : 0x500000005ull; int k = 0;
	for(int x : a){ Msg m{ADDR[x], {vi('i', side * 100 + k)}}; if(x == 1) m.v.push_back(vs("text")); if(x == 2) m.v.clear(), m.v.push_back(vd('d', side * 10 + k)); if(x == 3) m.v.push_back(vb(Bndl{0, {Msg{"/a", {vi('i', k)}}}})); if(x == 4 && side) m.v.clear(); b.m.push_back(m); k++; }
	return b;
}
static bool has(const Bndl &b, const std::string &a){ for(auto &m : b.m) if(m.a == a) return true; return false; }
static bool distinct(const Bndl &b){ std::set<std::string> s; for(auto &m : b.m) if(!s.insert(m.a).second) return false; return true; }
static Bndl want(int op, const Bndl &x, const Bndl &y){
	Bndl r;
	if(op == 0){ r.m = x.m; for(auto &m : y.m) if(!has(x, m.a)) r.m.push_back(m); }
	if(op == 1) for(auto &m : x.m) if(has(y, m.a)) r.m.push_back(m);
	if(op == 2){ for(auto &m : x.m) if(!has(y, m.a)) r.m.push_back(m); for(auto &m : y.m) if(!has(x, m.a)) r.m.push_back(m); }
	return r;
}
static void judge(const char *n, int op, const Bndl &r, const Bndl &x, const Bndl &y){
	Bndl w = want(op, x, y);
	if(distinct(x) && distinct(y)){
		bool ok = eq(r, w, false);
		if(!ok){ // as sets of messages
			ok = r.m.size() == w.m.size(); for(auto &m : w.m){ bool f = false; for(auto &q : r.m) f |= eq(m, q); ok &= f; }
		}
		CHECK(ok, "%s gives %s, want %s", n, str(r).c_str(), str(w).c_str());
	}else{ // repeated addresses: which addresses occur, and that every message is one of the inputs'
		std::set<std::string> a, b; for(auto &m : r.m) a.insert(m.a); for(auto &m : w.m) b.insert(m.a);
		CHECK(a == b, "%s gives %s, want the addresses of %s", n, str(r).c_str(), str(w).c_str());
		for(auto &m : r.m){ size_t in = 0, out = 0; for(auto &q : w.m) in += eq(m, q); for(auto &q : r.m) out += eq(m, q); CHECK(out <= in, "%s invented or repeated %s", n, str(m).c_str()); }
	}
	vc::trans();
}
static void one(const Bndl *x, const Bndl *y){
	Bndl none; const Bndl &X = x ? *x : none, &Y = y ? *y : none;
	std::string ex = x ? enc(*x) : "", ey = y ? enc(*y) : ""; Buf bx(ex), by(ey); char *px = x ? bx.p : NULL, *py = y ? by.p : NULL;
	auto dcd = [&](const char *n, long len, char *p){ Bndl r; CHECK(p && len >= 16 && dec(p, len, r), "%s is not a well-formed bundle: %s", n, vc::hex(p, len).c_str()); CHECK(r.tt == 0 || r.tt == X.tt || r.tt == Y.tt, "%s has an arbitrary timetag %llx", n, (unsigned long long)r.tt); return r; };
	{ t_osc_bndl_s *l = osc_bundle_s_alloc(ex.size(), px), *r = osc_bundle_s_alloc(ey.size(), py), *o = osc_bundle_s_union(l, r); CHECK(o, "union gives nothing"); judge("union", 0, dcd("union", osc_bundle_s_getLen(o), osc_bundle_s_getPtr(o)), X, Y); osc_bundle_s_deepFree(o); osc_bundle_s_free(l); osc_bundle_s_free(r); }
	for(int given = 0; given < 2; given++) for(int op = 1; op < 3; op++){
		long len = -1; Buf room(ex.size() + ey.size() + 16); char *o = given ? room.p : NULL; const char *n = op == 1 ? "intersection" : "difference";
		t_osc_err e = (op == 1 ? osc_bundle_s_intersection : osc_bundle_s_difference)(ex.size(), px, ey.size(), py, &len, &o); CHECK(e == OSC_ERR_NONE, "%s failed: %d", n, e);
		CHECK(!given || o == room.p, "%s ignored the caller's buffer", n);
		judge(n, op, dcd(n, len, o), X, Y); if(!given) osc_mem_free(o);
	}
	CHECK(bx.s() == ex && by.s() == ey, "an input changed");
	if(x && y){
		t_osc_bndl_u *ux = mkB(X), *uy = mkB(Y), *o = NULL; osc_bundle_u_union(ux, uy, &o); judge("in-memory union", 0, rdB(o), X, Y); osc_bundle_u_free(o); o = NULL;
		osc_bundle_u_intersection(ux, uy, &o); judge("in-memory intersection", 1, rdB(o), X, Y); osc_bundle_u_free(o);
		CHECK(eq(rdB(ux), X, false) && eq(rdB(uy), Y, false), "an in-memory input changed"); osc_bundle_u_free(ux); osc_bundle_u_free(uy);
	}
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	std::vector<std::vector<int>> seqs(1); size_t lo = 0; int NA = vc::tier ? 4 : 5;
	for(int l = 1; l <= maxn(); l++){ size_t hi = seqs.size(); for(size_t k = lo; k < hi; k++) for(int a = 0; a < NA; a++){ auto s = seqs[k]; s.push_back(a); seqs.push_back(s); } lo = hi; }
	CASE("absent, absent", { one(NULL, NULL); });
	for(auto &a : seqs){
		Bndl x = mk(a, 0);
		CASE(str(x) + " with absent", { one(&x, NULL); }); CASE("absent with " + str(x), { one(NULL, &x); });
		CASE(str(x) + " with each", { for(auto &b : seqs){ Bndl y = mk(b, 1); try{ one(&x, &y); }catch(vc::Fail &f){ vc::fail("%s: %s", str(y).c_str(), f.msg.c_str()); } vc::state(str(x) + str(y)); } });
	}
	// large bundles of distinct addresses that overlap from a given position on, or in every k-th message
	for(int n : {10, 20, 33, 64, 65, 100, 130, 257}) for(int m : {1, 20, 66, 129}) for(int how = 0; how < 4; how++) CASE(vc::fmt("%d and %d messages, overlap %d", n, m, how), {
		Bndl x, y; x.tt = 5; auto msg = [](int a, int side){ Msg r{vc::fmt("/m%d", a), {}}; if(a % 4) r.v.push_back(vi('i', side * 1000 + a)); if(a % 3 == 0) r.v.push_back(vs(std::string(a % 41, 'q'))); if(a % 50 == 7) r.v.push_back(vblob(std::string(300, 'z'))); return r; };
		for(int k = 0; k < n; k++) x.m.push_back(msg(k, 0));
		for(int k = 0; k < m; k++) y.m.push_back(msg(how == 0 ? k + 1000 : how == 1 ? n - 1 - k < 0 ? 2000 + k : n - 1 - k : how == 2 ? 3 * k : n / 2 + k, 1));
		one(&x, &y); one(&y, &x); vc::state(vc::fmt("%d %d %d", n, m, how));
	});
	CASE("empty set operations on absent wrappers", { CHECK(osc_bundle_s_union(NULL, NULL) == NULL, "union of nothing"); });
}
