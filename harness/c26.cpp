// C26: containers against sequence, list and map
#include "ref.hpp"
extern "C" {
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
}
const char *PROP = "C26";
static int dArr(){ return vc::tier ? 6 : 4; }
static int dList(){ return vc::tier ? 7 : 5; }
static int dHash(){ return vc::tier ? 5 : 4; }
std::string bounds(){ return vc::fmt("array: all sequences of %d operations (set, resize 0..4, copy, clear, copy into a new or old array at an offset) from lengths 0..2 of members of 1, 4 and 12 bytes; arrays of value cells of up to 2 cells of every type copied and copied into; arrays of messages, bundles and cells of up to 4 elements under all sequences of %d operations (resize, set, copy dropping either side, clear), arrays of encoded views; linked list: all sequences of %d operations (append, prepend, pops by end and index, clear, clone) with and without destructor; hash table: all sequences of %d operations over 7 keys that collide, share prefixes and have equal hashes in one 17-slot table; lists growing to %d and arrays resized to every length to 600 (members of 1..40 bytes) and 300 (messages, bundles, cells) and back; keys of up to 300 characters sharing long starts; tables of every size class up to past the largest prime filled past their slots", dArr(), vc::tier ? 6 : 4, dList(), dHash(), vc::tier ? 1500 : 300); }
void warmup(){}

// ---- array ----
typedef std::vector<std::string> Rows;
struct AOp { int k, i; };   // 0 set i, 1 resize i, 2 copy, 3 clear, 4 copyInto new at offset i, 5 copyInto old at offset i
static std::string aname(const AOp &o){ const char *n[] = {"set", "resize", "copy", "clear", "copyInto new +", "copyInto old +"}; return vc::fmt("%s%d", n[o.k], o.i); }
static void aobs(t_osc_array *a, const Rows &m, size_t ms){
	CHECK(osc_array_getLen(a) == (long)m.size(), "length %ld, want %zu", osc_array_getLen(a), m.size());
	for(long i = -2; i < (long)m.size() + 2; i++){ void *p = osc_array_get(a, i); if(i < 0 || i >= (long)m.size()){ CHECK(!p, "index %ld of %zu gives a member", i, m.size()); continue; } CHECK(p && std::string((char *)p, ms) == m[i], "member %ld reads %s, want %s", i, p ? vc::hex(p, ms).c_str() : "NULL", vc::hex(m[i].data(), ms).c_str()); }
	std::string s; for(auto &r : m) s += r + "|"; vc::state("A" + vc::fmt("%zu", ms) + s);
}
static void aseq(size_t ms, long len0, const std::vector<AOp> &ops){
	int fresh = 0; auto row = [&]{ fresh++; std::string r(ms, 0); for(size_t j = 0; j < ms; j++) r[j] = (char)(fresh * 16 + j + 1); return r; };
	t_osc_array *a = osc_array_allocWithSize(len0, ms); Rows m(len0, std::string(ms, 0)); aobs(a, m, ms);
	for(auto &o : ops){
		vc::trans();
		switch(o.k){
		case 0: { void *p = osc_array_get(a, o.i); if(o.i < (long)m.size() && p){ m[o.i] = row(); memcpy(p, m[o.i].data(), ms); } break; }
		case 1: { t_osc_err e = osc_array_resize(a, o.i); CHECK(e == OSC_ERR_NONE, "resize to %d says %llx", o.i, (long long)e); m.resize(o.i, std::string(ms, 0)); break; }
		case 2: { t_osc_array *c = osc_array_copy(a); aobs(c, m, ms); for(size_t i = 0; i < m.size(); i++) memset(osc_array_get(a, i), 0xee, ms); osc_array_free(a); a = c; break; }
		case 3: osc_array_clear(a); for(auto &r : m) r.assign(ms, 0); break;
		case 4: { t_osc_array *d = NULL; t_osc_err e = osc_array_copyInto(&d, a, o.i); CHECK(e == OSC_ERR_NONE && d, "copyInto"); Rows n(o.i, std::string(ms, 0)); n.insert(n.end(), m.begin(), m.end()); aobs(d, n, ms); aobs(a, m, ms); osc_array_free(a); a = d; m = n; break; }
		case 5: { t_osc_array *d = osc_array_allocWithSize(2, ms); Rows n; for(int i = 0; i < 2; i++){ n.push_back(row()); memcpy(osc_array_get(d, i), n[i].data(), ms); } t_osc_array *d0 = d; t_osc_err e = osc_array_copyInto(&d, a, o.i); CHECK(e == OSC_ERR_NONE && d == d0, "copyInto"); if(n.size() < m.size() + o.i) n.resize(m.size() + o.i, std::string(ms, 0)); for(size_t i = 0; i < m.size(); i++) n[i + o.i] = m[i]; aobs(d, n, ms); aobs(a, m, ms); osc_array_free(a); a = d; m = n; break; }
		}
		aobs(a, m, ms);
	}
	osc_array_free(a);
	CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
}
template<class O, class F> static void seqs(const std::vector<O> &al, int depth, std::vector<O> &cur, F f){ f(cur); if((int)cur.size() == depth) return; for(auto &o : al){ cur.push_back(o); seqs(al, depth, cur, f); cur.pop_back(); } }
static void arrays(){
	std::vector<AOp> al; for(int i : {0, 1, 3}) al.push_back({0, i}); for(int i : {0, 1, 2, 4}) al.push_back({1, i}); al.push_back({2, 0}); al.push_back({3, 0}); for(int i : {0, 1, 3}){ al.push_back({4, i}); al.push_back({5, i}); }
	for(size_t ms : {1, 4, 12}) for(long l0 : {0, 1, 2}) for(auto &o1 : al) CASE(vc::fmt("array of %ld %zu-byte members: %s, then all", l0, ms, aname(o1).c_str()), {
		std::vector<AOp> cur{o1}; seqs(al, dArr(), cur, [&](const std::vector<AOp> &ops){ if(vc::tier && ops.size() == 6 && ms != 4) return; try{ aseq(ms, l0, ops); }catch(vc::Fail &f){ std::string s; for(auto &o : ops) s += aname(o) + ";"; vc::fail("%s %s", s.c_str(), f.msg.c_str()); } });
	});
	CASE("array NULL arguments", { CHECK(osc_array_getLen(NULL) == 0 && !osc_array_get(NULL, 0) && !osc_array_copy(NULL), "NULL array"); osc_array_free(NULL); osc_array_clear(NULL); CHECK(osc_array_resize(NULL, 3) != OSC_ERR_NONE, "resize of NULL"); t_osc_array *d = NULL; CHECK(osc_array_copyInto(&d, NULL, 0) != OSC_ERR_NONE && !d, "copyInto from NULL"); });
}

// ---- cell arrays ----
static void cobs(t_osc_atom_array_u *a, const std::vector<Val> &m){
	CHECK(osc_atom_array_u_getLen(a) == (long)m.size(), "length %ld, want %zu", osc_atom_array_u_getLen(a), m.size());
	for(size_t i = 0; i < m.size(); i++){ t_osc_atom_u *c = (t_osc_atom_u *)osc_atom_array_u_get(a, (long)i); if(!m[i].t) { CHECK(osc_atom_u_getTypetag(c) == 0, "cell %zu is not empty", i); continue; } Val g = rdV(c); CHECK(eq(g, m[i]), "cell %zu is %s, want %s", i, str(g).c_str(), str(m[i]).c_str()); }
}
static t_osc_atom_array_u *mkArr(const std::vector<Val> &v){ t_osc_atom_array_u *a = osc_atom_array_u_alloc(v.size()); for(size_t i = 0; i < v.size(); i++) if(v[i].t) setV((t_osc_atom_u *)osc_atom_array_u_get(a, (long)i), v[i]); return a; }
static Val none(){ Val v; v.t = 0; return v; }
template<class T> static void nums(t_osc_atom_array_u *a, size_t n, t_osc_err (*f)(t_osc_atom_array_u *, T **), T (*g)(t_osc_atom_u *), const char *nm){
	for(int pre = 0; pre < 2; pre++){ T *o = pre ? (T *)osc_mem_alloc(n ? n * sizeof(T) : 1) : NULL; CHECK(f(a, &o) == OSC_ERR_NONE, "%s", nm); vc::trans(); for(size_t i = 0; i < n; i++){ T w = g((t_osc_atom_u *)osc_atom_array_u_get(a, (long)i)); CHECK(!memcmp(&w, &o[i], sizeof(T)), "%s: element %zu differs from the cell", nm, i); } osc_mem_free(o); }
}
template<class T> static void numsS(t_osc_atom_array_s *a, size_t n, t_osc_err (*f)(t_osc_atom_array_s *, T **), T (*g)(t_osc_atom_s *), const char *nm){
	for(int pre = 0; pre < 2; pre++){ T *o = pre ? (T *)osc_mem_alloc(n ? n * sizeof(T) : 1) : NULL; CHECK(f(a, &o) == OSC_ERR_NONE, "%s", nm); vc::trans(); for(size_t i = 0; i < n; i++){ T w = g((t_osc_atom_s *)osc_atom_array_s_get(a, (long)i)); CHECK(!memcmp(&w, &o[i], sizeof(T)), "%s: element %zu differs from the encoded value", nm, i); } osc_mem_free(o); }
}
static char gb(t_osc_atom_u *a){ return (char)osc_atom_u_getBool(a); }
static char gbs(t_osc_atom_s *a){ return (char)osc_atom_s_getBool(a); }
static void cells(){
	std::vector<Val> vs; for(char t : std::string(ALLT)) { auto x = valsOf(t, false); for(size_t i = 0; i < x.size() && i < (vc::tier ? 5u : 2u); i++) vs.push_back(x[i]); }
	std::vector<Val> few = {none(), vi('i', 5), ::vs("abc"), vblob("xyz")};
	std::vector<std::vector<Val>> src = {{}}; for(auto &a : vs) src.push_back({a}); for(auto &a : vs) for(auto &b : vs) src.push_back({a, b});
	std::vector<std::vector<Val>> dst = {{}, {few[1]}, {few[2]}, {few[2], few[3]}, {few[0], few[2], few[1], few[3]}};
	for(auto &s : src) CASE("cells " + [&]{ std::string r; for(auto &v : s) r += str(v) + " "; return r; }(), {
		{ t_osc_atom_array_u *a = mkArr(s); cobs(a, s); t_osc_atom_array_u *c = osc_atom_array_u_copy(a); vc::trans(); cobs(c, s); osc_atom_array_u_free(a); cobs(c, s); osc_atom_array_u_free(c); }
		for(long off : {0, 1, 3}){
			{ t_osc_atom_array_u *a = mkArr(s), *d = NULL; CHECK(osc_atom_array_u_copyInto(&d, a, off) == OSC_ERR_NONE, "copyInto"); vc::trans(); std::vector<Val> n(off, none()); n.insert(n.end(), s.begin(), s.end()); cobs(d, n); cobs(a, s); osc_atom_array_u_free(a); cobs(d, n); osc_atom_array_u_free(d); }
			for(auto &d0 : dst){ t_osc_atom_array_u *a = mkArr(s), *d = mkArr(d0); CHECK(osc_atom_array_u_copyInto(&d, a, off) == OSC_ERR_NONE, "copyInto"); vc::trans(); std::vector<Val> n = d0; if(n.size() < s.size() + off) n.resize(s.size() + off, none()); for(size_t i = 0; i < s.size(); i++) n[i + off] = s[i]; cobs(d, n); cobs(a, s); osc_atom_array_u_free(a); cobs(d, n); osc_atom_array_u_free(d); }
		}
		t_osc_atom_array_u *a = mkArr(s); size_t n = s.size();
		nums<double>(a, n, osc_atom_array_u_getDoubleArray, osc_atom_u_getDouble, "getDoubleArray"); nums<float>(a, n, osc_atom_array_u_getFloatArray, osc_atom_u_getFloat, "getFloatArray");
		nums<int32_t>(a, n, osc_atom_array_u_getInt32Array, osc_atom_u_getInt32, "getInt32Array"); nums<int64_t>(a, n, osc_atom_array_u_getInt64Array, osc_atom_u_getInt64, "getInt64Array");
		nums<uint32_t>(a, n, osc_atom_array_u_getUInt32Array, osc_atom_u_getUInt32, "getUInt32Array"); nums<uint64_t>(a, n, osc_atom_array_u_getUInt64Array, osc_atom_u_getUInt64, "getUInt64Array"); nums<char>(a, n, osc_atom_array_u_getBoolArray, gb, "getBoolArray");
		osc_atom_array_u_free(a);
		Msg m{"/m", s}; std::string e = enc(m); std::string pe; be(pe, e.size(), 4); Buf b(pe + e); t_osc_msg_s *ms = osc_message_s_alloc(); osc_message_s_wrap(ms, b.p); t_osc_atom_array_s *as = osc_atom_array_s_alloc(n); for(size_t i = 0; i < n; i++){ t_osc_atom_s *x = (t_osc_atom_s *)osc_atom_array_s_get(as, (long)i); osc_message_s_getArg(ms, i, &x); }
		numsS<double>(as, n, osc_atom_array_s_getDoubleArray, osc_atom_s_getDouble, "getDoubleArray"); numsS<float>(as, n, osc_atom_array_s_getFloatArray, osc_atom_s_getFloat, "getFloatArray");
		numsS<int32_t>(as, n, osc_atom_array_s_getInt32Array, osc_atom_s_getInt32, "getInt32Array"); numsS<int64_t>(as, n, osc_atom_array_s_getInt64Array, osc_atom_s_getInt64, "getInt64Array");
		numsS<uint32_t>(as, n, osc_atom_array_s_getUInt32Array, osc_atom_s_getUInt32, "getUInt32Array"); numsS<uint64_t>(as, n, osc_atom_array_s_getUInt64Array, osc_atom_s_getUInt64, "getUInt64Array"); numsS<char>(as, n, osc_atom_array_s_getBoolArray, gbs, "getBoolArray");
		osc_atom_array_s_free(as); osc_message_s_free(ms);
		t_osc_msg_u *mu = mkM(m); t_osc_atom_array_u *ac = osc_message_u_getArgArrayCopy(mu); cobs(ac, s); t_osc_msg_u *m2 = osc_message_u_allocWithAddress((char *)"/n"); CHECK(osc_message_u_setArgArrayCopy(m2, ac) == OSC_ERR_NONE, "setArgArrayCopy"); osc_message_u_free(mu); Msg g = rdM(m2); CHECK(eq(g, Msg{"/n", s}), "arguments set from an array read %s", str(g).c_str()); osc_atom_array_u_free(ac); osc_message_u_free(m2);
		CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
}

// ---- arrays of messages and of bundles; shrinking and growing arrays of cells ----
// 0.. resize to 0,1,2,4; then set element 0/1/2, copy (drop the original), copy (drop the copy), clear
static const char *TN[] = {"resize 0", "resize 1", "resize 2", "resize 4", "set 0", "set 1", "set 2", "copy, free the original", "copy, free the copy", "clear"};
template<class A> static void tseq(long len0, const std::vector<int> &ops){
	typename A::T *a = A::alloc(len0); std::vector<std::string> m(len0, A::none()); int fresh = 0;
	auto obs = [&](typename A::T *x, const char *w){ CHECK(A::len(x) == (long)m.size(), "%s: length %ld, want %zu", w, A::len(x), m.size()); for(size_t i = 0; i < m.size(); i++){ std::string g = A::get(x, i); CHECK(g == m[i], "%s: element %zu is %s, want %s", w, i, g.c_str(), m[i].c_str()); } CHECK(!A::at(x, m.size()) && !A::at(x, -1), "%s: an element outside the array", w); };
	obs(a, "new");
	for(int o : ops){
		vc::trans();
		if(o < 4){ static const int L[] = {0, 1, 2, 4}; CHECK(A::resize(a, L[o]) == OSC_ERR_NONE, "resize"); m.resize(L[o], A::none()); }
		else if(o < 7){ size_t i = o - 4; if(i < m.size()){ m[i] = A::set(a, i, ++fresh); } }
		else if(o == 7){ typename A::T *c = A::copy(a); obs(c, "the copy"); A::free(a); a = c; }
		else if(o == 8){ typename A::T *c = A::copy(a); obs(c, "the copy"); for(size_t i = 0; i < m.size(); i++) A::set(c, i, 1000); A::free(c); }
		else { A::clear(a); for(auto &x : m) x = A::none(); }
		obs(a, TN[o]); std::string s; for(auto &x : m) s += x + "|"; vc::state(s);
	}
	A::free(a); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
struct MsgA { typedef t_osc_msg_ar_u T; static std::string none(){ return str(Msg{"", {}}); }
	static T *alloc(long n){ return osc_message_array_u_alloc(n); } static long len(T *a){ return osc_message_array_u_getLen(a); } static void *at(T *a, long i){ return osc_message_array_u_get(a, i); }
	static std::string get(T *a, long i){ t_osc_msg_u *m = osc_message_array_u_get(a, i); if(!osc_message_u_getAddress(m)){ CHECK(osc_message_u_getArgCount(m) == 0, "arguments without an address"); return none(); } return str(rdM(m)); }
	static std::string set(T *a, long i, int f){ t_osc_msg_u *m = osc_message_array_u_get(a, i); Msg v{vc::fmt("/m%d", f), {vi('i', f), vs("text"), vblob("xy")}}; t_osc_msg_u *n = mkM(v); osc_message_u_deepCopy(&m, n); osc_message_u_free(n); return str(v); }
	static T *copy(T *a){ return osc_message_array_u_copy(a); } static t_osc_err resize(T *a, long n){ return osc_message_array_u_resize(a, n); } static void clear(T *a){ osc_message_array_u_clear(a); } static void free(T *a){ osc_message_array_u_free(a); } };
struct BndlA { typedef t_osc_bundle_array_u T; static std::string none(){ return str(Bndl()); }
	static T *alloc(long n){ return osc_bundle_array_u_alloc(n); } static long len(T *a){ return osc_bundle_array_u_getLen(a); } static void *at(T *a, long i){ return osc_bundle_array_u_get(a, i); }
	static std::string get(T *a, long i){ return str(rdB(osc_bundle_array_u_get(a, i))); }
	static std::string set(T *a, long i, int f){ t_osc_bndl_u *b = osc_bundle_array_u_get(a, i); osc_bundle_u_clear(b); Bndl v; Bndl in; in.m.push_back(Msg{"/in", {vs("deep")}}); v.m.push_back(Msg{vc::fmt("/b%d", f), {vi('i', f), vs("text")}}); v.m.push_back(Msg{"/c", {vb(in)}}); for(auto &m : v.m) osc_bundle_u_addMsg(b, mkM(m)); return str(v); }
	static T *copy(T *a){ return osc_bundle_array_u_copy(a); } static t_osc_err resize(T *a, long n){ return osc_bundle_array_u_resize(a, n); } static void clear(T *a){ osc_bundle_array_u_clear(a); } static void free(T *a){ osc_bundle_array_u_free(a); } };
struct CellA { typedef t_osc_atom_array_u T; static std::string none(){ return "none"; }
	static T *alloc(long n){ return osc_atom_array_u_alloc(n); } static long len(T *a){ return osc_atom_array_u_getLen(a); } static void *at(T *a, long i){ return osc_atom_array_u_get(a, i); }
	static std::string get(T *a, long i){ t_osc_atom_u *c = (t_osc_atom_u *)osc_atom_array_u_get(a, i); return osc_atom_u_getTypetag(c) ? str(rdV(c)) : none(); }
	static std::string set(T *a, long i, int f){ Bndl in; in.m.push_back(Msg{"/in", {vs("deep")}}); Val v = f % 3 == 0 ? vs(vc::fmt("text %d", f)) : f % 3 == 1 ? vb(in) : vblob(vc::fmt("bl%d", f)); setV((t_osc_atom_u *)osc_atom_array_u_get(a, i), v); return str(v); }
	static T *copy(T *a){ return osc_atom_array_u_copy(a); } static t_osc_err resize(T *a, long n){ return osc_atom_array_u_resize(a, n); } static void clear(T *a){ for(long i = 0; i < len(a); i++) osc_atom_u_clear((t_osc_atom_u *)osc_atom_array_u_get(a, i)); osc_atom_array_u_clear(a); } static void free(T *a){ osc_atom_array_u_free(a); } };
template<class A> static void tarr(const char *nm){
	std::vector<int> al; for(int i = 0; i < 10; i++) al.push_back(i);
	for(long l0 : {0, 1, 3}) for(int a : al) for(int b : al) CASE(vc::fmt("%s of %ld: %s, %s, then all", nm, l0, TN[a], TN[b]), { std::vector<int> cur{a, b}; seqs(al, vc::tier ? 6 : 4, cur, [&](const std::vector<int> &ops){ try{ tseq<A>(l0, ops); }catch(vc::Fail &f){ std::string s; for(int o : ops) s += TN[o] + std::string(";"); vc::fail("%s %s", s.c_str(), f.msg.c_str()); } }); });
}
// arrays of encoded messages and bundles hold views: their own bytes are the caller's
static void views(){
	for(int n = 0; n < 4; n++) for(int to = 0; to < 6; to++) CASE(vc::fmt("arrays of %d encoded messages and bundles resized to %d", n, to), {
		std::vector<std::string> bytes; std::vector<Buf *> bufs; t_osc_message_array_s *ma = osc_message_array_s_alloc(n); t_osc_bundle_array_s *ba = osc_bundle_array_s_alloc(n);
		for(int i = 0; i < n; i++){ Bndl b; b.m.push_back(Msg{vc::fmt("/v%d", i), {vi('i', i)}}); bufs.push_back(new Buf(enc(b))); osc_message_s_wrap(osc_message_array_s_get(ma, i), bufs[i]->p + 16); t_osc_bndl_s *bs = osc_bundle_s_alloc(bufs[i]->n, bufs[i]->p); memcpy(osc_bundle_array_s_get(ba, i), bs, osc_bundle_s_getStructSize()); osc_bundle_s_free(bs); }
		auto obs = [&](t_osc_message_array_s *m, t_osc_bundle_array_s *b, int len, int full){ CHECK(osc_message_array_s_getLen(m) == len && osc_bundle_array_s_getLen(b) == len, "length"); for(int i = 0; i < len; i++){ t_osc_msg_s *x = osc_message_array_s_get(m, i); t_osc_bndl_s *y = osc_bundle_array_s_get(b, i); if(i < full){ CHECK(vc::fmt("/v%d", i) == osc_message_s_getAddress(x) && osc_bundle_s_getPtr(y) == bufs[i]->p && osc_bundle_s_getLen(y) == (long)bufs[i]->n, "element %d", i); } else CHECK(!osc_bundle_s_getPtr(y) && !osc_bundle_s_getLen(y), "element %d is not empty", i); } CHECK(!osc_message_array_s_get(m, len) && !osc_bundle_array_s_get(b, -1), "an element outside"); };
		obs(ma, ba, n, n); t_osc_message_array_s *mc = osc_message_array_s_copy(ma); t_osc_bundle_array_s *bc = osc_bundle_array_s_copy(ba); obs(mc, bc, n, n);
		osc_message_array_s_resize(ma, to); osc_bundle_array_s_resize(ba, to); obs(ma, ba, to, std::min(n, to)); obs(mc, bc, n, n);
		osc_message_array_s_clear(ma); osc_bundle_array_s_clear(ba); obs(ma, ba, to, 0); osc_message_array_s_free(ma); osc_bundle_array_s_free(ba); obs(mc, bc, n, n); osc_message_array_s_free(mc); osc_bundle_array_s_free(bc);
		for(Buf *b : bufs) delete b; vc::trans(10); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
}

// ---- linked list ----
static std::vector<int> *g_dead; static void ldtor(void *p){ g_dead->push_back(*(int *)p); osc_mem_free(p); }
static int *tok(int v){ int *p = (int *)osc_mem_alloc(sizeof(int)); *p = v; return p; }
static void lclone(void **d, void *s){ *d = tok(*(int *)s + 1000); }
struct LIt { std::vector<int> v, ix; int ends = 0; };
static void lit(void *c, int i, void *d){ LIt *l = (LIt *)c; if(i < 0){ CHECK(!d && !l->ends, "end callback"); l->ends = 1; return; } CHECK(!l->ends, "element after the end"); l->ix.push_back(i); l->v.push_back(*(int *)d); }
static void lobs(t_osc_linkedlist *l, const std::vector<int> &m){
	CHECK(osc_linkedlist_getCount(l) == m.size(), "count %lu, want %zu", osc_linkedlist_getCount(l), m.size());
	auto is = [&](void *p, long i){ bool ok = i >= 0 && i < (long)m.size(); return ok ? p && *(int *)p == m[i] : !p; };
	CHECK(is(osc_linkedlist_peekHead(l), 0), "head"); CHECK(is(osc_linkedlist_peekTail(l), (long)m.size() - 1), "tail");
	for(int n = -3; n < (int)m.size() + 3; n++) CHECK(is(osc_linkedlist_peekNth(l, n), n == -1 ? (long)m.size() - 1 : n), "peekNth(%d) of %zu", n, m.size());
	LIt it; osc_linkedlist_iterate(l, lit, &it); CHECK(it.v == m && it.ends == 1, "iteration differs"); for(size_t i = 0; i < it.ix.size(); i++) CHECK(it.ix[i] == (int)i, "iteration index");
	vc::state(vc::hash(m.data(), m.size() * sizeof(int), 77));
}
// 0 append 1 prepend 2 append NULL 3 popHead 4 popTail 5.. popNth(n-8: -3..4) 13 clear 14 clone
static std::string lname(int o){ static const char *n[] = {"append", "prepend", "append NULL", "popHead", "popTail"}; return o < 5 ? n[o] : o == 13 ? "clear" : o == 14 ? "clone" : vc::fmt("popNth(%d)", o - 8); }
static void lseq(bool dt, const std::vector<int> &ops){
	std::vector<int> dead, m; g_dead = &dead; int fresh = 0; t_osc_linkedlist *l = osc_linkedlist_new(dt ? ldtor : NULL); std::vector<void *> mine;
	auto popped = [&](void *p, long i){ if(i < 0 || i >= (long)m.size()){ CHECK(!p, "a pop of nothing gives something"); return; } CHECK(p && *(int *)p == m[i], "pop gives the wrong element"); osc_mem_free(p); m.erase(m.begin() + i); };
	for(int o : ops){
		vc::trans(); size_t d0 = dead.size(); long n = m.size();
		if(o == 0){ int *p = tok(++fresh); osc_linkedlist_append(l, p); m.push_back(fresh); if(!dt) mine.push_back(p); }
		else if(o == 1){ int *p = tok(++fresh); osc_linkedlist_prepend(l, p); m.insert(m.begin(), fresh); }
		else if(o == 2){ osc_linkedlist_append(l, NULL); osc_linkedlist_prepend(l, NULL); }
		else if(o == 3) popped(osc_linkedlist_popHead(l), 0);
		else if(o == 4) popped(osc_linkedlist_popTail(l), n - 1);
		else if(o < 13) popped(osc_linkedlist_popNth(l, o - 8), o - 8 == -1 ? n - 1 : o - 8);
		else if(o == 13){ std::vector<void *> keep; if(!dt) for(long i = 0; i < n; i++) keep.push_back(osc_linkedlist_peekNth(l, i)); osc_linkedlist_clear(l); if(dt){ CHECK(std::vector<int>(dead.begin() + d0, dead.end()) == m, "clear destroyed %zu of %ld", dead.size() - d0, n); d0 = dead.size(); } for(void *p : keep) osc_mem_free(p); m.clear(); }
		else { t_osc_linkedlist *c = osc_linkedlist_clone(l, lclone); lobs(l, m); std::vector<int> m2 = m; for(int &x : m2) x += 1000; lobs(c, m2); std::vector<void *> keep; if(!dt) for(long i = 0; i < n; i++) keep.push_back(osc_linkedlist_peekNth(l, i)); osc_linkedlist_destroy(l); if(dt){ CHECK(std::vector<int>(dead.begin() + d0, dead.end()) == m, "destroy of the original"); d0 = dead.size(); } for(void *p : keep) osc_mem_free(p); l = c; m = m2; }
		CHECK(dead.size() == d0, "the destructor ran %zu times unasked", dead.size() - d0);
		lobs(l, m);
	}
	std::vector<void *> keep; if(!dt) for(size_t i = 0; i < m.size(); i++) keep.push_back(osc_linkedlist_peekNth(l, i)); size_t d0 = dead.size();
	osc_linkedlist_destroy(l); if(dt) CHECK(std::vector<int>(dead.begin() + d0, dead.end()) == m, "destroy destroyed %zu of %zu", dead.size() - d0, m.size()); for(void *p : keep) osc_mem_free(p);
	CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
}
static void lists(){
	std::vector<int> al; for(int i = 0; i < 15; i++) al.push_back(i);
	// indices are spread over a list that already has elements
	for(int dt = 0; dt < 2; dt++) for(int pre : {0, 3, 6}) for(int a : al) for(int b : al) CASE(vc::fmt("list of %d%s: %s, %s, then all", pre, dt ? " with destructor" : "", lname(a).c_str(), lname(b).c_str()), {
		std::vector<int> cur(pre, 0); cur.push_back(a); cur.push_back(b); int depth = dList() + pre - (pre && vc::tier ? 1 : 0) - (!dt && vc::tier ? 1 : 0);
		seqs(al, depth, cur, [&](const std::vector<int> &ops){ try{ lseq(dt, ops); }catch(vc::Fail &f){ std::string s; for(int o : ops) s += lname(o) + ";"; vc::fail("%s %s", s.c_str(), f.msg.c_str()); } });
	});
	CASE("list NULL arguments", { CHECK(!osc_linkedlist_peekHead(NULL) && !osc_linkedlist_peekTail(NULL) && !osc_linkedlist_peekNth(NULL, 0) && !osc_linkedlist_popHead(NULL) && !osc_linkedlist_popTail(NULL) && !osc_linkedlist_popNth(NULL, 1) && !osc_linkedlist_getCount(NULL), "NULL list"); osc_linkedlist_clear(NULL); osc_linkedlist_destroy(NULL); int x; osc_linkedlist_append(NULL, &x); osc_linkedlist_prepend(NULL, &x); });
}

// ---- hash table ----
static std::vector<std::pair<std::string, int>> *g_hd; static void hdtor(char *k, void *v){ g_hd->push_back({k, *(int *)v}); osc_mem_free(k); osc_mem_free(v); }
static char *hkey(const std::string &k){ char *p = (char *)osc_mem_alloc(k.size() + 1); memcpy(p, k.c_str(), k.size() + 1); return p; }
static void hit(char *k, void *v, void *c){ auto &m = *(std::vector<std::pair<std::string, int>> *)c; m.push_back({k, *(int *)v}); }
static const char *KEYS[] = {"a", "r", "am", "ba", "", "/foo/bar/baz", "\xc3\xa9"};
static int hget(t_osc_hashtab *h, const std::string &k){ Buf b(k + std::string(1, 0)); int *p = (int *)osc_hashtab_lookup(h, k.size(), (char *)b.p); return p ? *p : 0; }
typedef std::map<std::string, int> MP;
static void hobs(t_osc_hashtab *h, const MP &m){
	for(const char *k : KEYS){ int g = hget(h, k); auto f = m.find(k); int w = f == m.end() ? 0 : f->second; CHECK(g == w, "lookup of %s gives %d, want %d", vc::q(k).c_str(), g, w); }
	CHECK(!hget(h, "aa") && !hget(h, "q"), "a key never stored is found");
	std::vector<std::pair<std::string, int>> all; osc_hashtab_foreach(h, hit, &all); std::sort(all.begin(), all.end()); CHECK((all == std::vector<std::pair<std::string, int>>(m.begin(), m.end())), "foreach visits %zu entries, the map has %zu", all.size(), m.size());
	std::string s = "H"; for(auto &e : m) s += e.first + "|"; vc::state(s);
}
struct HOp { int k, key; }; // 0 store 1 storeSafe 2 remove 3 remove without destructor 4 clear
static std::string hname(const HOp &o){ const char *n[] = {"store ", "storeSafe ", "remove ", "detach ", "clear"}; return n[o.k] + (o.k == 4 ? "" : vc::q(KEYS[o.key])); }
static void hseq(const std::vector<HOp> &ops){
	std::vector<std::pair<std::string, int>> dead, want; g_hd = &dead; MP m; int fresh = 0; std::map<std::string, std::pair<char *, int *>> own; t_osc_hashtab *h = osc_hashtab_new(1, hdtor);
	for(auto &o : ops){
		vc::trans(); dead.clear(); want.clear(); std::string k = o.k == 4 ? "" : KEYS[o.key]; bool had = m.count(k);
		switch(o.k){
		case 0: { char *kp = hkey(k); int *v = tok(++fresh); if(had) want.push_back({k, m[k]}); osc_hashtab_store(h, k.size(), kp, v); m[k] = fresh; own[k] = {kp, v}; break; }
		case 1: { char *kp = hkey(k); int *v = tok(++fresh); osc_hashtab_storeSafe(h, k.size(), kp, v); if(had){ osc_mem_free(kp); osc_mem_free(v); }else{ m[k] = fresh; own[k] = {kp, v}; } break; }
		case 2: { Buf b(k + std::string(1, 0)); if(had) want.push_back({k, m[k]}); osc_hashtab_remove(h, k.size(), (char *)b.p, hdtor); m.erase(k); break; }
		case 3: { Buf b(k + std::string(1, 0)); osc_hashtab_remove(h, k.size(), (char *)b.p, NULL); if(had){ osc_mem_free(own[k].first); osc_mem_free(own[k].second); } m.erase(k); break; }
		case 4: for(auto &e : m) want.push_back(e); osc_hashtab_clear(h); m.clear(); break;
		}
		std::sort(dead.begin(), dead.end()); CHECK(dead == want, "%zu entries were destroyed, want %zu", dead.size(), want.size()); hobs(h, m);
	}
	dead.clear(); osc_hashtab_destroy(h); std::sort(dead.begin(), dead.end()); CHECK(dead == (std::vector<std::pair<std::string, int>>(m.begin(), m.end())), "destroying the table destroyed %zu of %zu", dead.size(), m.size());
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static void hashes(){
	std::vector<HOp> al; for(int k = 0; k < 7; k++) for(int o = 0; o < 4; o++) if(o != 3 || k < 3 || vc::tier) al.push_back({o, k}); al.push_back({4, 0});
	for(auto &a : al) for(auto &b : al) CASE("hash: " + hname(a) + ", " + hname(b) + ", then all", { std::vector<HOp> cur{a, b}; seqs(al, dHash(), cur, [&](const std::vector<HOp> &ops){ try{ hseq(ops); }catch(vc::Fail &f){ std::string s; for(auto &o : ops) s += hname(o) + ";"; vc::fail("%s %s", s.c_str(), f.msg.c_str()); } }); });
	static const long pr[] = {17, 37, 67, 137, 271, 541, 1181, 2371, 4759, 9521, 19037, 38083, 76157, 152287}; std::vector<int> sz = {-5, 0, 1, 2}; for(long p : pr) for(int d = -1; d <= 1; d++) sz.push_back(p + d); sz.push_back(400000); sz.push_back(3000000);
	for(int n : sz) for(int cnt : {3, vc::tier ? 20000 : 2000}) CASE(vc::fmt("table of %d slots holding %d keys", n, cnt), {
		std::vector<std::pair<std::string, int>> dead; g_hd = &dead; t_osc_hashtab *h = osc_hashtab_new(n, hdtor); CHECK(h, "no table");
		auto key = [](int i){ return vc::fmt("/k%d/%c", i / 3, 'a' + i % 3); };
		for(int i = 0; i < cnt; i++){ std::string k = key(i); osc_hashtab_store(h, k.size(), hkey(k), tok(i + 1)); vc::trans(); }
		for(int i = 0; i < cnt; i++) CHECK(hget(h, key(i)) == i + 1, "key %s lost", key(i).c_str()); CHECK(!hget(h, key(cnt)), "key %s found", key(cnt).c_str());
		for(int i = 0; i < cnt; i += 2){ std::string k = key(i); Buf b(k + std::string(1, 0)); osc_hashtab_remove(h, k.size(), (char *)b.p, hdtor); vc::trans(); }
		CHECK(dead.size() == (size_t)(cnt + 1) / 2, "%zu removed", dead.size()); for(int i = 0; i < cnt; i++) CHECK(hget(h, key(i)) == (i % 2 ? i + 1 : 0), "key %s after removing the even ones", key(i).c_str());
		osc_hashtab_destroy(h); CHECK(dead.size() == (size_t)cnt && vc::live() == 0, "%zu destroyed of %d, %ld blocks remain", dead.size(), cnt, vc::live());
	});
	CASE("hash NULL arguments", { char k[] = "k"; CHECK(!osc_hashtab_lookup(NULL, 1, k), "NULL table"); osc_hashtab_store(NULL, 1, k, k); osc_hashtab_storeSafe(NULL, 1, k, k); osc_hashtab_remove(NULL, 1, k, NULL); osc_hashtab_clear(NULL); osc_hashtab_foreach(NULL, hit, NULL); osc_hashtab_destroy(NULL); });
}
// ---- growing one by one ----
static void growing(){
	int N = vc::tier ? 1500 : 300;
	for(int dt = 0; dt < 2; dt++) for(int up = 0; up < 3; up++) for(int down = 0; down < 5; down++) CASE(vc::fmt("list growing to %d, way %d, shrinking, way %d%s", N, up, down, dt ? ", with destructor" : ""), {
		std::vector<int> dead, m; g_dead = &dead; t_osc_linkedlist *l = osc_linkedlist_new(dt ? ldtor : NULL);
		for(int n = 1; n <= N; n++){ if(up == 0 || up == 2 && n % 2){ osc_linkedlist_append(l, tok(n)); m.push_back(n); } else { osc_linkedlist_prepend(l, tok(n)); m.insert(m.begin(), n); } CHECK(osc_linkedlist_getCount(l) == m.size(), "count"); if(vc::look(n)) lobs(l, m); vc::trans(); }
		t_osc_linkedlist *c = osc_linkedlist_clone(l, lclone); std::vector<int> m2 = m; for(int &x : m2) x += 1000; lobs(c, m2);
		while(m.size()){ long n = m.size(), i = down == 0 ? 0 : down == 1 ? n - 1 : down == 2 ? n / 2 : down == 3 ? (n * 7919) % n : (n * 104729 + 3) % n; if(down == 3) i = n > 20 ? 20 : n - 1; void *p = down == 0 ? osc_linkedlist_popHead(l) : down == 1 ? osc_linkedlist_popTail(l) : osc_linkedlist_popNth(l, i); CHECK(p && *(int *)p == m[i], "popping element %ld of %ld gives another one", i, n); osc_mem_free(p); m.erase(m.begin() + i); vc::trans(); if(vc::look(m.size())) lobs(l, m); }
		CHECK(dead.empty(), "the destructor ran unasked"); lobs(c, m2); std::vector<void *> keep; if(!dt) for(size_t i = 0; i < m2.size(); i++) keep.push_back(osc_linkedlist_peekNth(c, i)); osc_linkedlist_clear(c); if(dt) CHECK(dead == m2, "clear destroyed %zu of %zu", dead.size(), m2.size()); for(void *p : keep) osc_mem_free(p); lobs(c, {}); osc_linkedlist_destroy(l); osc_linkedlist_destroy(c); CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
	for(size_t ms : {1, 4, 12, 40}) CASE(vc::fmt("array of %zu-byte members resized to every length", ms), {
		t_osc_array *a = osc_array_allocWithSize(0, ms); Rows m; auto put = [&](){ for(size_t i = 0; i < m.size(); i++){ for(size_t j = 0; j < ms; j++) m[i][j] = (char)(i * 7 + j + m.size()); memcpy(osc_array_get(a, i), m[i].data(), ms); } };
		for(int n = 0; n <= 600; n++){ CHECK(osc_array_resize(a, n) == OSC_ERR_NONE, "resize"); m.resize(n, std::string(ms, 0)); vc::trans(); if(vc::look(n)){ aobs(a, m, ms); put(); t_osc_array *c = osc_array_copy(a); aobs(c, m, ms); osc_array_free(c); t_osc_array *d = NULL; CHECK(osc_array_copyInto(&d, a, n % 5) == OSC_ERR_NONE, "copyInto"); Rows e(n % 5, std::string(ms, 0)); e.insert(e.end(), m.begin(), m.end()); aobs(d, e, ms); osc_array_free(d); } }
		for(int to : {300, 700, 257, 256, 255, 1000, 128, 512, 127, 20, 400, 0, 90}){ CHECK(osc_array_resize(a, to) == OSC_ERR_NONE, "resize to %d", to); m.resize(to, std::string(ms, 0)); aobs(a, m, ms); put(); } osc_array_clear(a); for(auto &r : m) r.assign(ms, 0); aobs(a, m, ms); osc_array_free(a); CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
	auto typed = [&](auto tag, const char *nm){ typedef decltype(tag) A; for(int way = 0; way < 3; way++) CASE(vc::fmt("array of %s resized by steps, way %d", nm, way), {
		typename A::T *a = A::alloc(0); std::vector<std::string> m; int fresh = 0; auto obs = [&](typename A::T *x){ CHECK(A::len(x) == (long)m.size(), "length %ld, want %zu", A::len(x), m.size()); for(size_t i = 0; i < m.size(); i++){ std::string g = A::get(x, i); CHECK(g == m[i], "element %zu of %zu is %s, want %s", i, m.size(), g.c_str(), m[i].c_str()); } CHECK(!A::at(x, m.size()) && !A::at(x, -1), "an element outside the array"); vc::trans(); };
		std::vector<int> to; if(way == 0) for(int n = 1; n <= 300; n++) to.push_back(n); if(way == 1) for(int n = 300; n >= 0; n -= 7) to.push_back(n); if(way == 2) to = {130, 3, 270, 255, 256, 257, 60, 61, 20, 19, 21, 300, 0, 40};
		for(int n : to){ size_t was = m.size(); CHECK(A::resize(a, n) == OSC_ERR_NONE, "resize"); m.resize(n, A::none()); if(vc::look(n) || way) obs(a); for(size_t i = was; i < m.size(); i++) m[i] = A::set(a, i, ++fresh); if(m.size() && way){ m[m.size() / 2] = A::set(a, m.size() / 2, ++fresh); } if(vc::look(n) || way){ obs(a); typename A::T *c = A::copy(a); obs(c); if(n % 2) std::swap(a, c); A::free(c); obs(a); } }
		A::clear(a); for(auto &x : m) x = A::none(); obs(a); A::free(a); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); }); };
	typed(MsgA(), "messages"); typed(BndlA(), "bundles"); typed(CellA(), "cells");
	for(int kind = 0; kind < 4; kind++) for(int slots : {1, 17, 271, 2371}) CASE(vc::fmt("table of %d slots, long keys, kind %d", slots, kind), {
		std::vector<std::pair<std::string, int>> dead; g_hd = &dead; t_osc_hashtab *h = osc_hashtab_new(slots, hdtor); MP m; int f = 0;
		auto key = [&](int i){ return kind == 0 ? std::string(i, 'k') : kind == 1 ? std::string(300 - i, 'p') + "end" : kind == 2 ? std::string(40, 's') + vc::fmt("%03d", i) : vc::fmt("%03d", i) + std::string(i % 60, 't'); };
		for(int i = 0; i < 300; i++){ std::string k = key(i); osc_hashtab_store(h, k.size(), hkey(k), tok(++f)); m[k] = f; vc::trans(); if(vc::look(i)) for(auto &e : m) CHECK(hget(h, e.first) == e.second, "key of %zu characters lost among %zu", e.first.size(), m.size()); CHECK(!hget(h, key(i) + "x"), "a longer key is found"); }
		for(int i = 0; i < 300; i += 3){ std::string k = key(i); osc_hashtab_store(h, k.size(), hkey(k), tok(++f)); m[k] = f; } for(int i = 1; i < 300; i += 4){ std::string k = key(i); Buf b(k + std::string(1, 0)); osc_hashtab_remove(h, k.size(), b.p, hdtor); m.erase(k); }
		for(int i = 0; i < 300; i++){ auto e = m.find(key(i)); CHECK(hget(h, key(i)) == (e == m.end() ? 0 : e->second), "key %d after replacing and removing", i); }
		std::vector<std::pair<std::string, int>> all; osc_hashtab_foreach(h, hit, &all); std::sort(all.begin(), all.end()); CHECK((all == std::vector<std::pair<std::string, int>>(m.begin(), m.end())), "foreach visits %zu entries, the map has %zu", all.size(), m.size());
		size_t n = dead.size(); osc_hashtab_destroy(h); CHECK(dead.size() == n + m.size() && vc::live() == 0, "%zu destroyed of %zu, %ld blocks remain", dead.size() - n, m.size(), vc::live());
	});
}
void explore(){ growing(); arrays(); cells(); tarr<MsgA>("messages"); tarr<BndlA>("bundles"); tarr<CellA>("cells"); views(); lists(); hashes(); }
