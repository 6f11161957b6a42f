// C11: judging and reading untrusted bytes
#include "spaces.hpp"
#include "match.hpp"
extern "C" {
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_vtable.h"
#include "osc_dispatch.h"
#include "osc_expr_parser.h"
}
const char *PROP = "C11";
static int LW(){ return vc::tier ? 6 : 5; }
std::string bounds(){ return vc::fmt("bases: %s; every truncation and every extension by 1..8 bytes, every byte set to each of %s, every aligned word (and pairs of words within 8 of each other) set to each of 24 words; header followed by every string of up to %d words over 17; every accepted string read through all readers in an exactly sized heap block, and passed to every operation on encoded bundles, whose outputs must pass the check", spaceDesc(0).c_str(), vc::tier ? "256 values" : "26 values", LW()); }
void warmup(){}
// ---- reference: -1 the layout does not fit, 1 well formed, 0 neither
static int judgeB(const std::string &s);
static int judgeM(const std::string &m){
	int r = 1; size_t n = m.size(); if(n < 4 || n % 4 || m[0] != '/') return -1;
	size_t z = m.find('\0'); if(z == std::string::npos) return -1; size_t p = (z / 4 + 1) * 4; for(size_t k = z; k < p; k++) if(m[k]) r = 0;
	if(p == n) return 0; if(m[p] != ',') return -1; size_t e = m.find('\0', p); if(e == std::string::npos) return -1; std::string tt = m.substr(p + 1, e - p - 1); size_t d = (e / 4 + 1) * 4; for(size_t k = e; k < d; k++) if(m[k]) r = 0;
	for(char t : tt){
		size_t left = n - d, sz;
		switch(t){
		case 'T': case 'F': case 'N': sz = 0; break; case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': sz = 4; break; case 'h': case 'H': case 'd': case 't': sz = 8; break;
		case 's': { size_t q = m.find('\0', d); if(q == std::string::npos) return -1; sz = (q / 4 + 1) * 4 - d; for(size_t k = q; k < d + sz; k++) if(m[k]) r = 0; break; }
		case 'b': case '.': { if(left < 4) return -1; uint64_t l = rbe(m.data() + d, 4); if(l > left - 4) return -1; sz = 4 + (l + 3) / 4 * 4; if(t == '.'){ int j = judgeB(m.substr(d + 4, l)); if(j < 0) return -1; if(!j) r = 0; } else for(size_t k = d + 4 + l; k < d + sz; k++) if(m[k]) r = 0; break; }
		case 'm': case 'r': case 'S': case 'J': case 'j': case 'A': return 0;
		default: return -1;
		}
		if(sz > left) return -1; d += sz;
	}
	return d == n ? r : 0;
}
static int judgeB(const std::string &s){
	if(s.size() < 16 || memcmp(s.data(), "#bundle", 8)) return -1; int r = 1; size_t p = 16;
	while(p < s.size()){ if(s.size() - p < 4) return -1; uint64_t l = rbe(s.data() + p, 4); if(l > s.size() - p - 4) return -1; int j = judgeM(s.substr(p + 4, l)); if(j < 0) return -1; if(!j) r = 0; p += 4 + l; }
	return r;
}
static uint64_t na, nr, nf;
static void norm(Bndl &b){ for(auto &m : b.m) for(auto &v : m.v) switch(v.t){ case 'c': v.i = (int8_t)v.i; break; case 'C': v.i = (uint8_t)v.i; break; case 'u': v.i = (int16_t)v.i; break; case 'U': v.i = (uint16_t)v.i; break; case '.': norm(*v.b); break; } }   // the upper bytes of a small integer's slot are ignored
static void readAll(Buf &b, const std::string &s, int j){
	int c = -1; t_osc_err e = osc_bundle_s_getMsgCount(b.n, b.p, &c); CHECK(!e && c >= 0, "accepted, but counting its messages gives error %d", (int)e);
	Bndl g = rdBs(b.n, b.p); CHECK((int)g.m.size() == c, "%d messages counted, %zu read", c, g.m.size());
	if(j == 1){ Bndl d; bool ok = dec(s, d); norm(d); CHECK(ok && eq(g, d), "reads as %s, it encodes %s", str(g).c_str(), str(d).c_str()); }
	char *t = osc_bundle_s_format(b.n, b.p); if(t) osc_mem_free(t);
	t_osc_bndl_u *u = osc_bundle_s_deserialize(b.n, b.p); CHECK(u, "does not decode"); Bndl gu = rdB(u); CHECK(gu.m.size() == g.m.size(), "decodes to %zu messages", gu.m.size());
	if(j == 1) CHECK(eq(gu, g, false), "decodes as %s, reads as %s", str(gu).c_str(), str(g).c_str());
	t_osc_bndl_s *rs = osc_bundle_u_serialize(u); if(rs) osc_bundle_s_deepFree(rs); osc_bundle_u_free(u);
	int res; osc_bundle_s_addressIsBound(b.n, b.p, (char *)"/a", 1, &res); osc_bundle_s_addressExists(b.n, b.p, (char *)"/ab", 0, &res);
	for(const char *a : {"/a", "/*", "/ab/x"}){ osc_bundle_s_getFirstFullMatch(b.n, b.p, (char *)a); t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(b.n, b.p, (char *)a, 1); if(ar) osc_message_array_s_free(ar); }
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(b.n, b.p); while(osc_bndl_it_s_hasNext(it)){ t_osc_msg_s *m = osc_bndl_it_s_next(it); int n = osc_message_s_getArgCount(m); for(int k = -1; k <= n; k++){ t_osc_atom_s *a = NULL; osc_message_s_getArg(m, k, &a); osc_message_s_getTypetag(m, k); if(a){ osc_atom_s_sizeof(a); osc_atom_s_getDouble(a); osc_atom_s_getInt64(a); osc_atom_s_getStringLen(a); char *f = osc_atom_s_format(a); if(f) osc_mem_free(f); osc_atom_s_free(a); } } }
	osc_bndl_it_s_destroy(it); vc::trans(8);
}
// what passes the check can be handed to every operation on encoded bundles, and what these give passes again
static void sane(const char *w, long n, char *p){ if(!p || !n) return; t_osc_err e = osc_error_bundleSanityCheck(n, p); CHECK(e == OSC_ERR_NONE, "%s gives bytes that fail the check: %s", w, vc::hex(p, n).c_str()); vc::trans(); }
static void saneB(const char *w, t_osc_bndl_s *b){ if(b) sane(w, osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b)); }
static uint64_t nout;
static void got(t_osc_vtable_entry *, long, char *, t_osc_bndl_s *p, t_osc_bndl_s *c, void *){ saneB("dispatching (partial matches)", p); saneB("dispatching (complete matches)", c); }
static void gotU(long, char *, t_osc_bndl_s *u, void *){ saneB("dispatching (unmatched messages)", u); }
static void operate(const std::string &s){
	Buf b(s); static char *SELS[] = {(char *)"/a", (char *)"/ab", (char *)"/"}; std::string other = enc(Bndl{7, {Msg{"/a", {vi('i', 1)}}, Msg{"/other", {vs("text")}}}}); Buf o(other);
	for(int strip = 0; strip < 2; strip++){
		t_osc_rset *rs = NULL; CHECK(osc_query_select(3, SELS, b.n, b.p, strip, &rs) == OSC_ERR_NONE, "the query fails"); saneB("a query (unmatched messages)", osc_rset_getUnmatched(rs)); osc_rset_initIterator(rs); while(osc_rset_hasNext(rs)){ t_osc_rset_result *r = osc_rset_next(rs); saneB("a query (complete matches)", osc_rset_result_getCompleteMatches(r)); saneB("a query (partial matches)", osc_rset_result_getPartialMatches(r)); } osc_rset_free(rs);
		t_osc_vtable *v = osc_vtable_alloc(2); osc_vtable_addEntry(v, SELS[0], got, NULL); osc_vtable_addEntry(v, SELS[1], got, NULL); osc_vtable_setDelegationMethod(v, gotU, NULL); osc_dispatch(v, b.n, b.p, strip); osc_dispatch_selectors(v, 2, SELS, b.n, b.p, strip); osc_vtable_free(v); }
	t_osc_bndl_s *x = osc_bundle_s_alloc(b.n, b.p), *y = osc_bundle_s_alloc(o.n, o.p);
	for(int q = 0; q < 3; q++){ t_osc_bndl_s *l = q == 1 ? y : x, *r = q == 0 ? y : x; t_osc_bndl_s *u = osc_bundle_s_union(l, r); saneB("a union", u); osc_bundle_s_deepFree(u);
		for(int k = 0; k < 2; k++){ long len = 0; char *p = NULL; (k ? osc_bundle_s_intersection : osc_bundle_s_difference)(osc_bundle_s_getLen(l), osc_bundle_s_getPtr(l), osc_bundle_s_getLen(r), osc_bundle_s_getPtr(r), &len, &p); sane(k ? "an intersection" : "a difference", len, p); osc_mem_free(p); }
		{ std::string z(osc_bundle_s_getLen(l) + osc_bundle_s_getLen(r) - 16, 'x'); Buf c(z); CHECK(osc_bundle_s_concat(osc_bundle_s_getLen(l), osc_bundle_s_getPtr(l), osc_bundle_s_getLen(r), osc_bundle_s_getPtr(r), (char *)c.p) == (long)c.n, "the size of two bundles joined"); sane("joining", c.n, (char *)c.p); } }
	for(const char *a : {"/a", "/*", "/ab/x"}){ Buf c(s); long n = c.n; std::string az = a; az += '\0'; Buf ab(az); CHECK(osc_bundle_s_removeMessage((char *)ab.p, &n, (char *)c.p, 1) == OSC_ERR_NONE && n <= (long)c.n, "removing fails"); sane("removing", n, (char *)c.p); osc_bundle_s_getFirstEqualAddr(b.n, b.p, (char *)ab.p); }
	{ t_osc_bndl_it_s *it = osc_bndl_it_s_get(b.n, b.p); int k = 0; while(osc_bndl_it_s_hasNext(it) && k < 3){ t_osc_msg_s *m = osc_bndl_it_s_next(it); k++; long len = o.n; char *p = (char *)osc_mem_alloc(len); memcpy(p, o.p, len); CHECK(osc_bundle_s_appendMessage(&len, &p, m) == OSC_ERR_NONE, "appending fails"); sane("appending a message", len, p);
			{ t_osc_msg_s *old = osc_message_s_alloc(); osc_message_s_wrap(old, p + 16); long pos = len, bl = len; CHECK(osc_bundle_s_replaceMessage(&bl, &pos, &p, old, m) == OSC_ERR_NONE, "replacing fails"); sane("replacing a message", pos, p); osc_message_s_free(old); } osc_mem_free(p);
			for(const char *nm : {"/x", "/abc", "/longer/address"}){ int pl = strlen(nm); int want = osc_message_s_getSize(m) - ((int)strlen(osc_message_s_getAddress(m)) / 4 + 1) * 4 + (pl / 4 + 1) * 4; Buf c(std::string(want + 4, 'x')); int32_t g = osc_message_s_renameCopy((char *)c.p, m, pl, (char *)nm); CHECK(g == want, "renaming to %s gives size %d, want %d", nm, g, want); t_osc_err e = osc_error_msgSanityCheck((char *)c.p); CHECK(e == OSC_ERR_NONE, "renaming gives a message that fails the check: %s", vc::hex(c.p, c.n).c_str()); }
			t_osc_msg_s *w = osc_message_s_alloc(); osc_message_s_wrap(w, osc_message_s_getPtr(m)); osc_message_s_cacheDataOffsets(w); for(int q = 0; q < osc_message_s_getArgCount(w); q++){ t_osc_atom_s *a = NULL; osc_message_s_getArg(w, q, &a); if(!a) continue; char *t = NULL; osc_atom_s_getString(a, 0, &t); osc_mem_free(t); t_osc_bndl_s *nb = osc_atom_s_getBndlCopy(a); osc_bundle_s_deepFree(nb); char *bl = NULL; int32_t blen = 0; osc_atom_s_getBlobCopy(&bl, &blen, a); osc_mem_free(bl); t_osc_atom_u *au = osc_atom_s_deserialize(a); osc_atom_u_free(au); osc_atom_s_free(a); } osc_message_s_free(w);
			t_osc_msg_u *mu = osc_message_s_deserialize(m); osc_message_u_free(mu); char *f = osc_message_s_format(m); osc_mem_free(f); }
		osc_bndl_it_s_destroy(it); }
	for(int lv = 0; lv < 2; lv++){ t_osc_bndl_s *e = NULL, *f = NULL; osc_bundle_s_explode(&e, x, lv, (char *)"/"); saneB("exploding", e); osc_bundle_s_flatten(&f, x, lv, (char *)"", lv); saneB("flattening", f); osc_bundle_s_deepFree(e); osc_bundle_s_deepFree(f); }
	static t_osc_expr *ex = NULL; if(!ex){ std::string t = "/c = /a, /a = [/ab, /a], /d = exists(/ab) + length(getaddresses()), delete(/a), /ab = {/x : /a}"; t += '\0'; Buf tb(t); vc::track = false; osc_expr_parser_parseExpr((char *)tb.p, &ex, NULL); vc::track = true; }
	{ long len = b.n; char *p = (char *)osc_mem_alloc(len); memcpy(p, b.p, len); for(t_osc_expr *f = ex; f; f = osc_expr_next(f)){ t_osc_atom_ar_u *r = NULL; osc_expr_eval(f, &len, &p, &r, NULL); if(r) osc_atom_array_u_free(r); sane("evaluating an expression", len, p); } osc_mem_free(p); }
	osc_bundle_s_free(x); osc_bundle_s_free(y); CHECK(b.s() == s, "the bytes were changed"); nout++;
}
static void check(const std::string &s){
	int j = judgeB(s); Buf b(s); t_osc_err e = osc_error_bundleSanityCheck(b.n, b.p); vc::trans();
	if(j > 0) CHECK(e == OSC_ERR_NONE, "%s is well formed, the check gives error 0x%x", vc::hex(s.data(), s.size()).c_str(), (int)e);
	if(j < 0) CHECK(e != OSC_ERR_NONE, "%s passes the check", vc::hex(s.data(), s.size()).c_str());
	if(e != OSC_ERR_NONE){ nr++; int c = 77; CHECK(osc_bundle_s_getMsgCount(b.n, b.p, &c) != OSC_ERR_NONE && c == 0, "rejected bytes have %d messages", c); int called = 0; CHECK(osc_bundle_s_getMessagesWithCallback(b.n, b.p, [](t_osc_msg_s *, void *x){ ++*(int *)x; }, &called) != OSC_ERR_NONE && !called, "messages of rejected bytes are delivered"); }
	else { j > 0 ? na++ : nf++; readAll(b, s, j); vc::state(s); operate(s); }
	CHECK(b.s() == s, "%s: the bytes were changed", vc::hex(s.data(), s.size()).c_str());
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static void done(){ vc::count("accepted", na); vc::count("rejected", nr); vc::count("accepted, neither", nf); na = nr = nf = 0; }
// the verdict alone and plain reading, for bytes too long for every operation
static void light(const std::string &s, bool rd){
	int j = judgeB(s); Buf b(s); t_osc_err e = osc_error_bundleSanityCheck(b.n, b.p); vc::trans();
	if(j > 0) CHECK(e == OSC_ERR_NONE, "%zu bytes %s... are well formed, the check gives error 0x%x", s.size(), vc::hex(s.data(), 200).c_str(), (int)e);
	if(j < 0) CHECK(e != OSC_ERR_NONE, "%zu bytes %s... pass the check", s.size(), vc::hex(s.data(), 200).c_str());
	if(e == OSC_ERR_NONE){ j > 0 ? na++ : nf++; if(rd) readAll(b, s, j); } else nr++;
	CHECK(b.s() == s, "%s: the bytes were changed", vc::hex(s.data(), s.size()).c_str()); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	static const char *SH[] = {"whole numbers", "texts", "numbers and texts", "nothing but types", "blobs", "nested bundles", "one long address", "one long text", "many messages", "many nested bundles"};
	for(int sh = 0; sh < 10; sh++) CASE(vc::fmt("long: %s", SH[sh]), { for(int n = 1; n <= (vc::tier ? 400 : 150); n++){ if(!vc::look(n) && n % 10) continue;
		Bndl b; Msg m{"/a", {}}; if(sh < 6) for(int k = 0; k < n; k++) m.v.push_back(sh == 0 ? vi('i', k) : sh == 1 ? vs(vc::fmt("t%d", k)) : sh == 2 ? (k % 2 ? vd('d', k) : vs(std::string(k % 5, 'x'))) : sh == 3 ? vt("TFN"[k % 3]) : sh == 4 ? vblob(std::string(k % 7, 'b')) : vb(Bndl{0, {Msg{"/n", {}}}}));
		if(sh == 6) m.a += std::string(n, 'a'); if(sh == 7) m.v = {vs(std::string(n, 's')), vi('i', 1)}; b.m.push_back(m); if(sh == 8) for(int k = 1; k < n; k++) b.m.push_back(Msg{vc::fmt("/m%d", k), {vi('i', k)}}); if(sh == 9) for(int k = 1; k < n; k++) b.m.push_back(Msg{vc::fmt("/m%d", k), {vb(Bndl{0, {Msg{"/n", {vi('i', k)}}}})}});
		std::string s = enc(b); light(s, 1); for(size_t k : {s.size() - 1, s.size() - 4, s.size() - 8, s.size() / 2, s.size() / 2 + 3}) light(s.substr(0, k), 1); light(s + std::string(4, 0), 1); light(s + std::string(1, 'x'), 1);
		if(n != 5 && n != 12 && n != 40 && n != 130 && !(vc::tier && n < 60)) continue;
		for(size_t i = 16; i < s.size(); i += 1) for(char c : std::string("\0\1\4s,/i\xff", 8)){ if(s[i] == c) continue; std::string t = s; t[i] = c; light(t, s.size() < 120); } vc::state(s); } done(); });
	static std::vector<std::string> W; if(W.empty()){ for(uint32_t w : {0u, 1u, 3u, 4u, 5u, 8u, 12u, 16u, 20u, 24u, 64u, 0x7ffffffcu, 0x7fffffffu, 0x80000000u, 0xfffffffcu, 0xffffffffu}){ std::string o; be(o, w, 4); W.push_back(o); } for(const char *w : {"/a\0\0", "/abc", ",\0\0\0", ",i\0\0", ",s\0\0", ",b\0\0", ",.\0\0", "#bun"}) W.push_back(std::string(w, 4)); }
	std::string bv; if(vc::tier) for(int k = 0; k < 256; k++) bv += (char)k; else { bv = std::string("\0\1\2\3\4\5\7\10\14\20\24\40", 12); bv += "/,sb.ihTx#[\x7f\x80\xff"; }
	size_t no = 0;
	forBundles(0, [&](const Bndl &b){ std::string s = enc(b); if(s.size() > (vc::tier ? 400 : 160)) return; if(!vc::tier && s.size() > 48 && no++ % 3) return; CASE("mutations of " + str(b), {
		check(s); for(size_t n = 0; n < s.size(); n++) check(s.substr(0, n)); for(int k = 1; k <= 8; k++){ check(s + std::string(k, '\0')); check(s + std::string(k, '/')); check(s + std::string(k, '\xff')); }
		for(size_t i = 0; i < s.size(); i++) for(char c : bv){ if(s[i] == c) continue; if(i >= 8 && i < 16) continue; std::string m = s; m[i] = c; check(m); }
		for(size_t i = 16; i + 4 <= s.size(); i += 4) for(auto &w : W){ std::string m = s; m.replace(i, 4, w); check(m); check(m.substr(0, i + 4)); for(size_t k = i + 4; k <= i + 8 && k + 4 <= s.size(); k += 4) for(auto &v : W){ std::string m2 = m; m2.replace(k, 4, v); check(m2); } }
		for(size_t i = 16; i < s.size(); i++) for(int k = 1; k <= 4; k++){ std::string m = s; m.erase(i, k); check(m); m = s; m.insert(i, k, '\0'); check(m); }
		done();
	}); });
	// word strings
	static std::vector<std::string> V; if(V.empty()){ for(uint32_t w : {0u, 4u, 8u, 12u, 16u, 20u, 0xffffffffu, 2u}){ std::string o; be(o, w, 4); V.push_back(o); } for(const char *w : {"/a\0\0", "/abc", ",\0\0\0", ",i\0\0", ",s\0\0", ",b\0\0", ",.\0\0", ",iT\0", "#bun"}) V.push_back(std::string(w, 4)); }
	std::string hd = enc(Bndl());
	for(auto &a : V) for(auto &c : V) CASE("words " + vc::q(a + c) + "...", { std::string s = hd + a; check(s); s += c; std::function<void()> r = [&]{ check(s); if(s.size() == 16 + 4 * LW()) return; for(auto &v : V){ s += v; r(); s.resize(s.size() - 4); } }; r(); done(); });
	// the same as the only message, so that deeper layouts are reached: sizes are right
	for(auto &a : V) for(auto &c : V) CASE("message words " + vc::q(a + c) + "...", { std::string s = a + c; std::function<void()> r = [&]{ std::string m = "/a" + std::string(2, '\0') + s, t = hd; be(t, m.size(), 4); check(t + m); t = hd; be(t, s.size(), 4); check(t + s); Bndl in; std::string n = hd; be(n, m.size(), 4); n += m; std::string o = std::string("/s\0\0,.\0\0", 8); be(o, n.size(), 4); o += n; t = hd; be(t, o.size(), 4); check(t + o); if((int)s.size() == 4 * (LW() - 1)) return; for(auto &v : V){ s += v; r(); s.resize(s.size() - 4); } }; r(); done(); });
	CASE("no bundle", { CHECK(osc_error_bundleSanityCheck(16, NULL) != OSC_ERR_NONE, "NULL passes"); for(int n = -3; n < 16; n++){ Buf b(hd.substr(0, std::max(n, 0))); CHECK(osc_error_bundleSanityCheck(n, b.p) != OSC_ERR_NONE, "%d bytes pass", n); } CHECK(osc_error_bundleSanityCheck(INT32_MIN, (char *)hd.data()) != OSC_ERR_NONE, "negative length passes"); done(); });
	CASE("single messages", { forBundles(0, [&](const Bndl &b){ for(auto &m : b.m){ std::string e = enc(m), s; be(s, e.size(), 4); s += e; Buf x(s); CHECK(osc_error_msgSanityCheck(x.p) == OSC_ERR_NONE, "%s fails the check", str(m).c_str()); for(size_t i = 4; i < s.size(); i++) for(char c : {'\0', '/', ',', 's', '\xff', '\x01'}){ std::string t = s; t[i] = c; int j = judgeM(t.substr(4)); Buf y(t); bool ok = osc_error_msgSanityCheck(y.p) == OSC_ERR_NONE; CHECK(j == 0 || ok == (j > 0), "message %s %s", vc::hex(t.data(), t.size()).c_str(), ok ? "passes" : "fails"); vc::trans(); } } }); done(); });
}
