// C08: an encoded bundle under every in-place edit history stays well formed and equals a plain list
#include "ref.hpp"
const char *PROP = "C08";
enum { APP_S, APP_M, APP_L, APP_SUB, RM_A, RM_B, RM_C, RM_X, REP0_S, REP0_L, REPM_L, REPL_S, REPL_SUB, REP_CROSS, SETT, WRAP, CONCAT, CONCAT_R, COPY, SWAP, NOPS };
static const char *NAMES[] = {"append /a","append /ab text","append /c with many arguments","append /a with sub-bundle","remove /a","remove /ab","remove /c","remove /x","replace first by a smaller","replace first by a larger","replace middle by a larger","replace last by a smaller","replace last by a sub-bundle","replace first by the other's last","set timetag","start over from a bare message","concatenate the other","concatenate to the other","copy to new","swap"};
static int depth(){ return vc::tier ? 5 : 4; }
std::string bounds(){ return vc::fmt("two encoded bundles, starting absent and starting empty, %d edits, every sequence of 1..%d edits with the bytes compared after each; every bundle lives in an exactly sized block; bundles growing to %d messages of three mixtures, replaced at five positions and removed address by address; messages of up to 70000 bytes", NOPS, depth(), vc::tier ? 2000 : 700); }
void warmup(){}
struct St { long len; char *p; Bndl b; bool there; };
static int ctr;
static Msg small(){ return Msg{"/a", {vi('i', ++ctr)}}; }
static Msg large(){ ++ctr; return Msg{"/c", {vs(vc::fmt("text number %d", ctr)), vd('d', ctr), vblob("blob!"), vt('T'), vi('h', ctr)}}; }
static Msg subm(){ return Msg{"/a", {vb(Bndl{0, {Msg{"/s", {vi('i', ++ctr)}}, Msg{"/t", {}}}})}}; }
struct Enc { Buf b; t_osc_msg_s *m; Enc(const Msg &x) : b(full(x)) { m = osc_message_s_alloc(); osc_message_s_wrap(m, b.p); } ~Enc(){ osc_message_s_free(m); } static std::string full(const Msg &x){ std::string e = enc(x), o; be(o, e.size(), 4); return o + e; } };
static void observe(const St &s, const char *w){
	vc::trans();
	if(!s.there){ CHECK(!s.p, "%s appeared from nowhere", w); return; }
	std::string e = enc(s.b); CHECK(s.len == (long)e.size(), "%s has length %ld, want %zu", w, s.len, e.size());
	std::string got(s.p, s.len); CHECK(got == e, "%s is %s, want %s", w, vc::hex(got.data(), got.size()).c_str(), vc::hex(e.data(), e.size()).c_str());
	int n = -1; CHECK(osc_bundle_s_getMsgCount(s.len, s.p, &n) == OSC_ERR_NONE && n == (int)s.b.m.size(), "%s counts %d messages", w, n);
	CHECK(rdtt(osc_bundle_s_getTimetag(s.len, s.p)) == s.b.tt, "%s has the wrong timetag", w);
	for(const char *a : {"/a", "/ab", "/c", "/x"}){ long at = -1, off = 16; for(auto &m : s.b.m){ if(m.a == a && at < 0) at = off; off += 4 + enc(m).size(); } char *p = osc_bundle_s_getFirstEqualAddr(s.len, s.p, (char *)a); CHECK(p == (at < 0 ? NULL : s.p + at), "%s: the first %s is not where it should be", w, a); }
}
static long offset(const Bndl &b, size_t k){ long o = 16; for(size_t i = 0; i < k; i++) o += 4 + enc(b.m[i]).size(); return o; }
static void rep(St &A, size_t k, const Msg &x, t_osc_msg_s *nm){
	t_osc_msg_s *om = osc_message_s_alloc(); osc_message_s_wrap(om, A.p + offset(A.b, k));
	long buflen = A.len, pos = A.len; t_osc_err e = osc_bundle_s_replaceMessage(&buflen, &pos, &A.p, om, nm); CHECK(e == OSC_ERR_NONE, "replacing failed: %d", e);
	CHECK(buflen >= pos, "buffer length %ld below content length %ld", buflen, pos);
	A.len = pos; A.b.m[k] = x; osc_message_s_free(om);
}
static void apply(int op, St &A, St &B, std::vector<St> &fresh){
	size_t n = A.b.m.size();
	auto app = [&](const Msg &m){ Enc e(m); CHECK(osc_bundle_s_appendMessage(&A.len, &A.p, e.m) == OSC_ERR_NONE, "append failed"); A.there = true; A.b.m.push_back(m); };
	auto rm = [&](const char *a){ if(!A.there) return; Buf p(std::string(a) + '\0'); CHECK(osc_bundle_s_removeMessage(p.p, &A.len, A.p, 1) == OSC_ERR_NONE, "remove failed"); for(size_t k = 0; k < A.b.m.size();) if(A.b.m[k].a == a) A.b.m.erase(A.b.m.begin() + k); else k++; };
	switch(op){
	case APP_S: app(small()); break; case APP_M: app(Msg{"/ab", {vs(vc::fmt("t%d", ++ctr))}}); break; case APP_SUB: app(subm()); break;
	case APP_L: { Msg m = large(); Enc e(m); t_osc_bndl_s *b = A.there ? osc_bundle_s_alloc(A.len, A.p) : NULL; CHECK(osc_bundle_s_appendMessage_b(&b, e.m) == OSC_ERR_NONE, "append failed"); A.len = osc_bundle_s_getLen(b); A.p = osc_bundle_s_getPtr(b); osc_bundle_s_free(b); A.there = true; A.b.m.push_back(m); break; }
	case RM_A: rm("/a"); break; case RM_B: rm("/ab"); break; case RM_C: rm("/c"); break; case RM_X: rm("/x"); break;
	case REP0_S: if(n){ Msg m = small(); Enc e(m); rep(A, 0, m, e.m); } break;
	case REP0_L: if(n){ Msg m = large(); Enc e(m); rep(A, 0, m, e.m); } break;
	case REPM_L: if(n){ Msg m = large(); Enc e(m); rep(A, n / 2, m, e.m); } break;
	case REPL_S: if(n){ Msg m{"/ab", {}}; Enc e(m); rep(A, n - 1, m, e.m); } break;
	case REPL_SUB: if(n){ Msg m = subm(); Enc e(m); rep(A, n - 1, m, e.m); } break;
	case REP_CROSS: if(n && B.b.m.size()){ t_osc_msg_s *m = osc_message_s_alloc(); size_t k = B.b.m.size() - 1; osc_message_s_wrap(m, B.p + offset(B.b, k)); rep(A, 0, B.b.m[k], m); osc_message_s_free(m); } break;
	case SETT: if(A.there){ A.b.tt = 0x0102030405060700ull + ++ctr; osc_bundle_s_setTimetag(A.len, A.p, mktt(A.b.tt)); } break;
	case WRAP: { Msg m = large(); std::string e = enc(m); Buf b(e); char al = 0; if(A.p) osc_mem_free(A.p); A.p = NULL; A.len = 0; CHECK(osc_bundle_s_wrapMessage(b.n, b.p, &A.len, &A.p, &al) == OSC_ERR_NONE && al == 1, "wrapping failed"); A.there = true; A.b = Bndl{0, {m}}; break; }
	case CONCAT: case CONCAT_R: { St &X = op == CONCAT ? A : B, &Y = op == CONCAT ? B : A; if(!X.there && !Y.there) break; if(X.b.m.size() + Y.b.m.size() > 4000) break;
		long want = X.there && Y.there ? X.len + Y.len - 16 : X.there ? X.len : Y.len; char *o = (char *)osc_mem_alloc(want);
		long l = osc_bundle_s_concat(X.len, X.p, Y.len, Y.p, o); CHECK(l == want, "concatenation has length %ld, want %ld", l, want);
		Bndl r = X.there ? X.b : Y.b; if(X.there) r.m.insert(r.m.end(), Y.b.m.begin(), Y.b.m.end()); if(A.p) osc_mem_free(A.p); A.p = o; A.len = l; A.there = true; A.b = r; break; }
	case COPY: if(A.there){ t_osc_bndl_s *b = osc_bundle_s_alloc(A.len, A.p), *c = NULL; CHECK(osc_bundle_s_deepCopy(&c, b) == OSC_ERR_NONE, "copy failed"); fresh.push_back(St{osc_bundle_s_getLen(c), osc_bundle_s_getPtr(c), A.b, true}); osc_bundle_s_free(c); osc_bundle_s_free(b); } break;
	case SWAP: std::swap(A, B); break;
	}
}
static std::string desc(const St &s){ return s.there ? str(s.b) : "absent"; }
static void seq(const std::vector<int> &s){
	ctr = 0; St A{0, NULL, Bndl(), false}; std::vector<St> fresh;
	t_osc_bndl_s *e = osc_bundle_s_allocEmptyBundle(); St B{osc_bundle_s_getLen(e), osc_bundle_s_getPtr(e), Bndl(), true}; osc_bundle_s_free(e); observe(B, "a new empty bundle");
	for(int op : s){ apply(op, A, B, fresh); observe(A, "the bundle"); observe(B, "the other bundle"); for(auto &f : fresh) observe(f, "a copy"); vc::state(desc(A) + "|" + desc(B)); }
	osc_mem_free(A.p); for(auto &f : fresh) observe(f, "a copy, after freeing the original");
	osc_mem_free(B.p); for(auto &f : fresh) osc_mem_free(f.p);
	CHECK(vc::live() == 0, "after freeing every bundle, %ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static std::string text(const std::vector<int> &s){ std::string d; for(int o : s) d += std::string(NAMES[o]) + "; "; return d; }
static void rec(std::vector<int> &s, int left){
	if(!left){ try{ seq(s); }catch(vc::Fail &f){ vc::fail("%s%s", text(s).c_str(), f.msg.c_str()); } return; }
	for(int o = 0; o < NOPS; o++){ s.push_back(o); rec(s, left - 1); s.pop_back(); }
}
void explore(){
	std::vector<int> s; int D = depth();
	std::function<void(int, bool)> go = [&](int left, bool tail){ if(!left){ if(tail) CASE(text(s) + "* *", { std::vector<int> t = s; rec(t, 2); }); else CASE(text(s), { seq(s); }); return; } for(int o = 0; o < NOPS; o++){ s.push_back(o); go(left - 1, tail); s.pop_back(); } };
	go(1, false); go(2, false); go(D - 2, true);
	// large bundles: grown one by one, edited at the first, second, middle, last but one and last message, removed address by address
	for(int N : {20, 40, 90, 130, 300, vc::tier ? 2000 : 700}) for(int kind = 0; kind < 3; kind++) CASE(vc::fmt("growing to %d messages, kind %d", N, kind), {
		ctr = 0; St A{0, NULL, Bndl(), false}, B{0, NULL, Bndl(), false}; std::vector<St> fresh;
		for(int n = 1; n <= N; n++){ apply(kind == 0 ? APP_S : kind == 1 ? (n % 3 ? APP_L : n % 2 ? APP_M : APP_S) : (n % 5 ? APP_M : APP_SUB), A, B, fresh); if(vc::look(n)) observe(A, "the growing bundle"); }
		apply(COPY, A, B, fresh);
		for(int p : {0, 1, N / 2, N - 2, N - 1}) for(int w = 0; w < 4; w++){ Msg m = w == 0 ? large() : w == 1 ? small() : w == 2 ? subm() : Msg{"/q", {vs(std::string(200, 'x'))}}; Enc e(m); rep(A, p, m, e.m); observe(A, "the bundle after a replacement"); }
		apply(SETT, A, B, fresh); observe(A, "the bundle"); apply(SWAP, A, B, fresh); apply(CONCAT, A, B, fresh); observe(A, "the concatenation"); apply(APP_S, A, B, fresh); apply(CONCAT_R, A, B, fresh); observe(A, "the concatenation of two large ones"); 
		for(int r : {RM_X, RM_A, RM_B, RM_C}){ apply(r, B, A, fresh); observe(B, "the bundle after a removal"); } apply(APP_S, B, A, fresh); observe(B, "the bundle after all");
		for(auto &f : fresh){ observe(f, "a copy"); osc_mem_free(f.p); } osc_mem_free(A.p); osc_mem_free(B.p); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); vc::state(vc::fmt("grow %d %d", N, kind));
	});
	for(int big : {100, 500, 1000, 4000, 70000}) CASE(vc::fmt("messages of %d bytes", big), { ctr = 0;
		Msg h{"/a", {vs(std::string(big, 'h')), vblob(std::string(big / 2, 'b'))}}; St A{0, NULL, Bndl(), false}, B{0, NULL, Bndl(), false}; std::vector<St> fresh; auto app = [&](const Msg &m){ Enc e(m); CHECK(osc_bundle_s_appendMessage(&A.len, &A.p, e.m) == OSC_ERR_NONE, "append failed"); A.there = true; A.b.m.push_back(m); observe(A, "the bundle"); };
		for(int k = 0; k < 6; k++){ app(k % 2 ? h : small()); app(Msg{"/ab", {vs("t")}}); }
		for(int p : {0, 1, 5, 10, 11}){ Msg m = small(); { Enc e(m); rep(A, p, m, e.m); observe(A, "after replacing by a smaller"); } Enc e(h); rep(A, p, h, e.m); observe(A, "after replacing by a larger"); }
		apply(RM_A, A, B, fresh); observe(A, "after removing the large ones"); app(h); apply(RM_B, A, B, fresh); observe(A, "after removing the small ones"); osc_mem_free(A.p); CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
	CASE("header fields", {
		Buf b(std::string(enc(Bndl{0x1122334455667788ull, {small()}}))); CHECK(osc_bundle_s_strcmpID(b.p) == 0, "header not recognised");
		CHECK(osc_bundle_s_setBundleID(b.p) == OSC_ERR_NONE && b.s() == enc(Bndl{0x1122334455667788ull, {Msg{"/a", {vi('i', ctr)}}}}), "setting the identifier changed the bundle");
		for(int k = 0; k < 8; k++){ b.p[k] ^= 1; CHECK(osc_bundle_s_strcmpID(b.p) != 0, "damaged header recognised"); b.p[k] ^= 1; }
		for(long l = -1; l < 16; l++){ std::string was = b.s(); osc_bundle_s_setTimetag(l, b.p, mktt(1)); CHECK(b.s() == was && rdtt(osc_bundle_s_getTimetag(l, b.p)) == 0, "timetag accessed in a bundle of length %ld", l); }
	});
	for(int spare = 0; spare < 3; spare++) CASE(vc::fmt("replace in a buffer with room, case %d", spare), {
		Bndl x{7, {large(), small(), large()}}; std::string e = enc(x); long buflen = e.size() + (spare == 0 ? 4 : spare == 1 ? 200 : 0), pos = e.size(); char *p = (char *)osc_mem_alloc(buflen); memcpy(p, e.data(), e.size());
		for(size_t k = 0; k < 3; k++) for(int lg = 0; lg < 3; lg++){ Msg m = lg == 0 ? large() : lg == 1 ? small() : Msg{"/q", {vs(std::string(90, 'x'))}}; Enc em(m); t_osc_msg_s *om = osc_message_s_alloc(); osc_message_s_wrap(om, p + offset(x, k)); osc_bundle_s_replaceMessage(&buflen, &pos, &p, om, em.m); osc_message_s_free(om); x.m[k] = m; e = enc(x); CHECK(pos == (long)e.size() && buflen >= pos && std::string(p, pos) == e, "replacing message %zu left %s", k, vc::hex(p, pos).c_str()); memset(p + pos, 0x77, buflen - pos); vc::trans(); }
		osc_mem_free(p); CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
}
