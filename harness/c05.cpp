// C05: value cells: every store/copy/clear history against a plain model; ownership checked by ASan and the block log
#include "ref.hpp"
const char *PROP = "C05";
struct Op { const char *n; int k; };
static const char *NAMES[] = {"int8","uint8","int16","uint16","int32","uint32","int64","uint64","float","double","str-empty","str-short","str-long","strptr-owned","strptr-borrowed","blob0","blob3","blobptr-owned","blobptr-borrowed","bundle","empty-bundle","bundle-encoded","true","false","nil","bool","timetag","negate","clear","copy-into-other","copy-into-new","copy-from-other","reset-own-string","str-none"};
static const int NOPS = sizeof NAMES / sizeof *NAMES;
static int depth(){ return vc::tier ? 4 : 3; }
std::string bounds(){ return vc::fmt("two cells, %d operations on either of them, every sequence of 1..%d operations; texts, blobs and bundles of every size to 300 stored over each other, arrays of up to 300 values; plus every ordered triple of stores on one cell followed by copy and by free, a cell inside a message, and value arrays (copy, copyInto at every offset, text, typed views) over all value tuples up to 3; every constructor; encoded cells of every writable type stored, overwritten by every value of the same encoded size, in place inside an encoded message, pointed from any value at any other and decoded over any value", NOPS, depth()); }
void warmup(){}
static Bndl sub(){ Bndl b; b.m.push_back(Msg{"/s", {vi('i', 5), vs("q")}}); return b; }
struct Cell { t_osc_atom_u *a; Val v; bool known; };
static char borrowed[] = "borrowed text", borrowedblob[] = "\0\0\0\5bytes\0\0";
static void apply(int op, Cell &c, Cell &o, std::vector<Cell> &fresh){
	t_osc_atom_u *a = c.a; c.known = c.known || op < 27;
	switch(op){
	case 0: osc_atom_u_setInt8(a, -5); c.v = vi('c', -5); break;
	case 1: osc_atom_u_setUInt8(a, 200); c.v = vi('C', 200); break;
	case 2: osc_atom_u_setInt16(a, -500); c.v = vi('u', -500); break;
	case 3: osc_atom_u_setUInt16(a, 60000); c.v = vi('U', 60000); break;
	case 4: osc_atom_u_setInt32(a, -70000); c.v = vi('i', -70000); break;
	case 5: osc_atom_u_setUInt32(a, 0xfffffff0u); c.v = vi('I', 0xfffffff0u); break;
	case 6: osc_atom_u_setInt64(a, -(1ll << 40)); c.v = vi('h', -(1ll << 40)); break;
	case 7: osc_atom_u_setUInt64(a, ~0ull - 3); c.v = vi('H', (int64_t)(~0ull - 3)); break;
	case 8: osc_atom_u_setFloat(a, -1.5f); c.v = vd('f', -1.5); break;
	case 9: osc_atom_u_setDouble(a, .1); c.v = vd('d', .1); break;
	case 10: case 11: case 12: { const char *t[] = {"", "abc", "a rather longer piece of text than before"}; Buf b(std::string(t[op - 10]) + '\0'); osc_atom_u_setString(a, b.p); c.v = vs(t[op - 10]); break; }
	case 13: { char *p = (char *)osc_mem_alloc(6); strcpy(p, "owned"); osc_atom_u_setStringPtr(a, p); osc_atom_u_setShouldFreePtr(a, 1); c.v = vs("owned"); break; }
	case 14: osc_atom_u_setStringPtr(a, borrowed); c.v = vs(borrowed); break;
	case 15: { Buf b(std::string(4, 0)); osc_atom_u_setBlob(a, b.p); c.v = vblob(""); break; }
	case 16: { Buf b(std::string("\0\0\0\3\0\xff\1", 7)); osc_atom_u_setBlob(a, b.p); c.v = vblob(std::string("\0\xff\1", 3)); break; }
	case 17: { char *p = (char *)osc_mem_alloc(8); memcpy(p, "\0\0\0\4blob", 8); osc_atom_u_setBlobPtr(a, p); osc_atom_u_setShouldFreePtr(a, 1); c.v = vblob("blob"); break; }
	case 18: osc_atom_u_setBlobPtr(a, borrowedblob); c.v = vblob("bytes"); break;
	case 19: osc_atom_u_setBndl_u(a, mkB(sub())); c.v = vb(sub()); break;
	case 20: osc_atom_u_setBndl_u(a, osc_bundle_u_alloc()); c.v = vb(Bndl()); break;
	case 21: { Buf b(enc(sub())); osc_atom_u_setBndl_s(a, b.n, b.p); c.v = vb(sub()); break; }
	case 22: osc_atom_u_setTrue(a); c.v = vt('T'); break;
	case 23: osc_atom_u_setFalse(a); c.v = vt('F'); break;
	case 24: osc_atom_u_setNil(a); c.v = vt('N'); break;
	case 25: osc_atom_u_setBool(a, 7); c.v = vt('T'); break;
	case 26: osc_atom_u_setTimetag(a, mktt(0x123456789ull)); c.v = vi('t', 0x123456789ll); break;
	case 27: if(!c.known) break; osc_atom_u_negate(a); if(strchr("cuih", c.v.t)) c.v.i = -c.v.i; else if(isflt(c.v.t)) c.v.d = -c.v.d; else if(isint(c.v.t)){ /* the negative of an unsigned number, in the signed type of its width if it fits */ int64_t n = (int64_t)(0 - (uint64_t)c.v.i); bool fits = c.v.t == 'C' ? c.v.i <= 128 : c.v.t == 'U' ? c.v.i <= 32768 : c.v.t == 'I' ? c.v.i <= 2147483648ll : (uint64_t)c.v.i <= 1ull << 63; if(!fits) c.known = false; else { c.v.t = tolower(c.v.t); c.v.i = n; } } break;
	case 28: osc_atom_u_clear(a); c.known = false; break;
	case 29: if(c.known){ osc_atom_u_copyInto(&o.a, a); o.v = c.v; o.known = true; } break;
	case 30: if(c.known) fresh.push_back(Cell{osc_atom_u_copy(a), c.v, true}); break;
	case 31: if(o.known){ osc_atom_u_copyInto(&c.a, o.a); c.v = o.v; c.known = true; } break;
	case 33: osc_atom_u_setString(a, NULL); c.known = false; break;
	case 32: if(c.known && c.v.t == 's'){ std::string t = c.v.s + "+"; osc_atom_u_setString(a, t.c_str()); c.v = vs(t); } break;
	}
	vc::trans();
}
static void same(const Cell &c, const char *w){
	if(!c.known) return;
	Val r = rdV(c.a); CHECK(eq(r, c.v), "%s holds %s, last stored %s", w, str(r).c_str(), str(c.v).c_str());
	std::string e = enc(c.v); CHECK(osc_atom_u_getSerializedSize(c.a) == (long)e.size(), "%s (%s) has encoded size %ld", w, str(c.v).c_str(), osc_atom_u_getSerializedSize(c.a));
}
static void seq(const std::vector<int> &s){
	Cell c[2] = {{osc_atom_u_alloc(), Val(), false}, {osc_atom_u_alloc(), Val(), false}}; std::vector<Cell> fresh;
	for(int op : s){
		apply(op % NOPS, c[op / NOPS], c[1 - op / NOPS], fresh);
		same(c[0], "cell 1"); same(c[1], "cell 2"); for(auto &f : fresh) same(f, "a copy");
		vc::state((c[0].known ? str(c[0].v) : "?") + "|" + (c[1].known ? str(c[1].v) : "?"));
	}
	osc_atom_u_free(c[0].a); same(c[1], "cell 2, after freeing cell 1"); for(auto &f : fresh) same(f, "a copy, after freeing cell 1");
	osc_atom_u_free(c[1].a); for(size_t k = 0; k < fresh.size(); k++){ same(fresh[k], "a copy, after freeing both cells"); osc_atom_u_free(fresh[k].a); }
	CHECK(!strcmp(borrowed, "borrowed text") && !memcmp(borrowedblob, "\0\0\0\5bytes", 9), "borrowed memory was changed");
	CHECK(vc::live() == 0, "after freeing every cell, %ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
// constructors that take a value
static void ctors(){
	auto done = [](t_osc_atom_u *a, const Val &w){ Val r = rdV(a); CHECK(eq(r, w), "the new cell holds %s, want %s", str(r).c_str(), str(w).c_str()); osc_atom_u_free(a); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); vc::trans(); };
	for(auto &v : valsOf('s', true)) CASE("allocWithString " + str(v), { Buf b(v.s + std::string(1, 0)); t_osc_atom_u *a = osc_atom_u_allocWithString(b.p); if(*b.p) b.p[0] ^= 1; done(a, v); });
	for(auto &v : valsOf('d', true)) CASE("allocWithDouble " + str(v), { done(osc_atom_u_allocWithDouble(v.d), v); });
	for(auto &v : valsOf('f', true)) CASE("allocWithFloat " + str(v), { done(osc_atom_u_allocWithFloat((float)v.d), v); });
	for(auto &v : valsOf('i', true)) CASE("allocWithInt32 " + str(v), { done(osc_atom_u_allocWithInt32((int32_t)v.i), v); });
	for(auto &v : valsOf('t', true)) CASE("allocWithTimetag " + str(v), { done(osc_atom_u_allocWithTimetag(mktt((uint64_t)v.i)), v); });
	CASE("allocWithBndl", { done(osc_atom_u_allocWithBndl(mkB(sub())), vb(sub())); });
	CASE("setRec over every type", { int x; for(const char *t = ALLT; *t; t++) for(auto &v : valsOf(*t, false)){ t_osc_atom_u *a = mkV(v); CHECK(!osc_atom_u_getRec(a), "a value is read as a record"); osc_atom_u_setRec(a, &x); CHECK(osc_atom_u_getRec(a) == &x, "the record is lost"); setV(a, v); CHECK(!osc_atom_u_getRec(a) && eq(rdV(a), v), "the record remains"); osc_atom_u_free(a); CHECK(vc::live() == 0, "%s: %ld blocks remain", str(v).c_str(), vc::live()); vc::trans(2); } });
}
// encoded cells: a view of one value's bytes
static void setS(t_osc_atom_s *a, const Val &v){
	switch(v.t){
	case 'c': osc_atom_s_setInt8(a, v.i); break; case 'C': osc_atom_s_setUInt8(a, v.i); break; case 'u': osc_atom_s_setInt16(a, v.i); break; case 'U': osc_atom_s_setUInt16(a, v.i); break;
	case 'i': osc_atom_s_setInt32(a, v.i); break; case 'I': osc_atom_s_setUInt32(a, v.i); break; case 'h': osc_atom_s_setInt64(a, v.i); break; case 'H': osc_atom_s_setUInt64(a, v.i); break;
	case 'f': osc_atom_s_setFloat(a, (float)v.d); break; case 'd': osc_atom_s_setDouble(a, v.d); break; case 't': osc_atom_s_setTimetag(a, mktt((uint64_t)v.i)); break;
	case 's': { Buf b(v.s + std::string(1, 0)); osc_atom_s_setString(a, b.p); break; }
	case 'T': osc_atom_s_setTrue(a); break; case 'F': osc_atom_s_setFalse(a); break; case 'N': osc_atom_s_setNil(a); break;
	}
}
static void sameS(t_osc_atom_s *a, const Val &v, const char *w){
	CHECK(osc_atom_s_getTypetag(a) == v.t, "%s: type %c, want %c", w, osc_atom_s_getTypetag(a), v.t);
	t_osc_atom_u *u = osc_atom_s_deserialize(a); Val r = rdV(u); CHECK(eq(r, v), "%s: the encoded cell holds %s, want %s", w, str(r).c_str(), str(v).c_str()); osc_atom_u_free(u);
	std::string e = enc(v); CHECK(osc_atom_s_sizeof(a) == e.size(), "%s: encoded size %zu, want %zu", w, osc_atom_s_sizeof(a), e.size());
	if(!e.empty()) CHECK(std::string(osc_atom_s_getData(a), e.size()) == e, "%s: the bytes are %s, want %s", w, vc::hex(osc_atom_s_getData(a), e.size()).c_str(), vc::hex(e.data(), e.size()).c_str());
	char *f = osc_atom_s_format(a); if(!strchr("cC", v.t) || v.i) CHECK((long)strlen(f) == osc_atom_s_getFormattedSize(a), "%s: formatted size %ld of %s", w, osc_atom_s_getFormattedSize(a), vc::q(f).c_str()); osc_mem_free(f);
	vc::trans();
}
static void encoded(){
	std::string fixed = "cCuUiIhHfdtTFN", writable = fixed + "s";
	// stored into a cell without bytes of its own, then overwritten by values of the same encoded size
	for(char t : writable) for(auto &v : valsOf(t, true)) CASE("encoded cell: " + str(v), {
		t_osc_atom_s *a = osc_atom_s_alloc(0, NULL); setS(a, v); sameS(a, v, "stored");
		for(char u : writable) for(auto &x : valsOf(u, true)){ if(enc(x).size() != enc(v).size()) continue; setS(a, x); sameS(a, x, "overwritten"); setS(a, v); sameS(a, v, "stored again"); vc::state(str(v) + str(x)); }
		osc_mem_free(osc_atom_s_getData(a)); osc_atom_s_free(a); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
	// an argument of an encoded message, overwritten where it lies
	for(int pos = 0; pos < 3; pos++) for(char t : fixed) for(auto &v : valsOf(t, true)) CASE(vc::fmt("encoded message argument %d: ", pos) + str(v), {
		for(auto &x : valsOf(t, true)){
			Msg m{"/m", {vi('i', 1), vs("two"), vd('d', 3)}}; m.v[pos] = v; std::string e = enc(m), pe; be(pe, e.size(), 4); Buf b(pe + e);
			t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, b.p); t_osc_atom_s *a = NULL; osc_message_s_getArg(s, pos, &a); sameS(a, v, "argument");
			setS(a, x); sameS(a, x, "argument overwritten"); m.v[pos] = x; CHECK(std::string(b.p + 4, b.n - 4) == enc(m), "the message's bytes are %s, want %s", vc::hex(b.p + 4, b.n - 4).c_str(), vc::hex(enc(m).data(), enc(m).size()).c_str());
			if(strchr("cuihfd", t)){ osc_atom_s_negate(a); Val n = x; if(isflt(t)) n.d = -n.d; else n.i = t == 'h' ? (int64_t)(0 - (uint64_t)x.i) : -x.i; if(t == 'c') n.i = (int8_t)n.i; if(t == 'u') n.i = (int16_t)n.i; if(t == 'i') n.i = (int32_t)n.i; sameS(a, n, "negated"); m.v[pos] = n; CHECK(std::string(b.p + 4, b.n - 4) == enc(m), "negating changed other bytes"); }
			osc_atom_s_free(a); osc_message_s_free(s); vc::state(str(m));
		}
		CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
	// one cell pointed at one value after the other, and deserialized over every other value
	for(const char *t = ALLT; *t; t++) for(auto &v : valsOf(*t, true)) CASE("encoded cell pointed at " + str(v), {
		Buf b(enc(v)); t_osc_atom_s *a = osc_atom_s_alloc(0, NULL);
		for(const char *u = ALLT; *u; u++) for(auto &x : valsOf(*u, false)){
			Buf c(enc(x)); osc_atom_s_set(a, *u, c.p); sameS(a, x, "set"); osc_atom_s_set(a, *t, b.p); sameS(a, v, "set again");
			t_osc_atom_u *d = mkV(x); osc_atom_s_deserializeInto(&d, a); Val r = rdV(d); CHECK(eq(r, v), "deserialized over %s: %s, want %s", str(x).c_str(), str(r).c_str(), str(v).c_str()); osc_atom_u_free(d);
		}
		osc_atom_s_free(a); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
}
// values of every size stored over each other: one cell growing and shrinking, a second one following by copies
static void sizes(){
	int N = vc::tier ? 1200 : 300;
	auto val = [](int kind, int n){ return kind == 0 ? vs(std::string(n, 'a' + n % 26)) : kind == 1 ? vblob(std::string(n, 'A' + n % 26)) : kind == 2 ? vb(Bndl{0, {Msg{"/" + std::string(n + 1, 'm'), {vs(std::string(n, 'y'))}}}}) : n % 2 ? vs(std::string(n, 'z')) : vblob(std::string(n, 'Z')); };
	for(int kind = 0; kind < 4; kind++) for(int path = 0; path < 3; path++) CASE(vc::fmt("sizes to %d of %s, %s", N, kind == 0 ? "text" : kind == 1 ? "blobs" : kind == 2 ? "bundles" : "texts and blobs", path == 0 ? "growing" : path == 1 ? "shrinking" : "to and fro"), {
		t_osc_atom_u *a = osc_atom_u_alloc(), *b = osc_atom_u_alloc();
		for(int k = 0; k < N; k++){
			Val v = val(kind, path == 0 ? k : path == 1 ? N - 1 - k : k % 2 ? N - 1 - k / 2 : k / 2); Val old = k ? rdV(a) : v; if(k) osc_atom_u_copyInto(&b, a); setV(a, v);
			Val r = rdV(a); CHECK(eq(r, v), "the cell holds %s, want %s", str(r).c_str(), str(v).c_str()); if(k){ Val q = rdV(b); CHECK(eq(q, old), "the copy holds %s, want %s", str(q).c_str(), str(old).c_str()); }
			std::string e = enc(v); CHECK(osc_atom_u_getSerializedSize(a) == (long)e.size(), "%s has encoded size %ld, want %zu", str(v).c_str(), osc_atom_u_getSerializedSize(a), e.size());
			t_osc_atom_u *c = osc_atom_u_copy(a); osc_atom_u_copyInto(&a, b); Val q = rdV(c); CHECK(eq(q, v), "the copy holds %s, want %s", str(q).c_str(), str(v).c_str()); osc_atom_u_copyInto(&a, c); osc_atom_u_free(c);
			Buf eb(e); t_osc_atom_s *s = osc_atom_s_alloc(v.t, eb.p); t_osc_atom_u *d = osc_atom_u_copy(b); osc_atom_s_deserializeInto(&d, s); q = rdV(d); CHECK(eq(q, v), "decoded over another value: %s, want %s", str(q).c_str(), str(v).c_str()); if(v.t == 's'){ sameS(s, v, "encoded"); } osc_atom_s_free(s); osc_atom_u_free(d);
			vc::trans(6); vc::state(str(v));
		}
		osc_atom_u_free(a); osc_atom_u_free(b); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
	CASE(vc::fmt("arrays of up to %d values", N), { for(int n = 0; n <= N; n++){ if(!vc::look(n) && n % 7) continue; std::vector<Val> w; auto mk = [](int k){ return k % 3 == 0 ? vi('i', k) : k % 3 == 1 ? vs(vc::fmt("text %d", k)) : vd('d', k / 4.); };
		t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(n); for(int k = 0; k < n; k++){ setV((t_osc_atom_u *)osc_atom_array_u_get(ar, k), mk(k)); w.push_back(mk(k)); }
		auto is = [&](t_osc_atom_ar_u *x, const std::vector<Val> &w, const char *what){ CHECK(osc_atom_array_u_getLen(x) == (long)w.size(), "%s of %d: length %ld, want %zu", what, n, osc_atom_array_u_getLen(x), w.size()); for(size_t k = 0; k < w.size(); k++){ if(w[k].t == 0) continue; Val r = rdV((t_osc_atom_u *)osc_atom_array_u_get(x, k)); CHECK(eq(r, w[k]), "%s of %d: element %zu is %s, want %s", what, n, k, str(r).c_str(), str(w[k]).c_str()); } vc::trans(w.size() + 1); };
		is(ar, w, "array"); t_osc_atom_ar_u *cp = osc_atom_array_u_copy(ar); is(cp, w, "copy");
		for(int off : {0, 1, n / 2, n}){ t_osc_atom_ar_u *d = osc_atom_array_u_copy(ar); osc_atom_array_u_copyInto(&d, ar, off); std::vector<Val> x = w; x.resize(off + n, vt(0)); for(int k = 0; k < n; k++) x[off + k] = w[k]; is(d, x, "copy onto itself"); osc_atom_array_u_free(d); }
		osc_atom_array_u_resize(cp, n + 5); CHECK(osc_atom_array_u_getLen(cp) == n + 5, "resized"); for(int k = 0; k < 5; k++) setV((t_osc_atom_u *)osc_atom_array_u_get(cp, n + k), mk(n + k)); std::vector<Val> x = w; for(int k = 0; k < 5; k++) x.push_back(mk(n + k)); is(cp, x, "longer array");
		osc_atom_array_u_free(ar); is(cp, x, "copy, after freeing the first"); osc_atom_array_u_free(cp); CHECK(vc::live() == 0, "%d: %ld blocks remain: %s", n, vc::live(), vc::live_desc().c_str()); } });
}
void explore(){
	ctors(); encoded(); sizes();
	std::vector<int> s;
	int D = depth();
	// group by prefix: one case per (first, second) pair enumerates all continuations
	for(int a = 0; a < NOPS; a++) CASE(vc::fmt("%s", NAMES[a]), { seq({a}); });
	for(int a = 0; a < NOPS; a++) for(int b = 0; b < 2 * NOPS; b++){
		auto nm = [](int o){ return vc::fmt("%s(%d)", NAMES[o % NOPS], o / NOPS + 1); };
		CASE(nm(a) + " " + nm(b), { seq({a, b}); });
		CASE(nm(a) + " " + nm(b) + " *", {
			for(int c = 0; c < 2 * NOPS; c++){ try{ seq({a, b, c}); }catch(vc::Fail &f){ vc::fail("then %s: %s", nm(c).c_str(), f.msg.c_str()); } }
		});
		if(D >= 4) for(int c = 0; c < 2 * NOPS; c++) CASE(nm(a) + " " + nm(b) + " " + nm(c) + " *", {
			for(int d = 0; d < 2 * NOPS; d++){ try{ seq({a, b, c, d}); }catch(vc::Fail &f){ vc::fail("then %s: %s", nm(d).c_str(), f.msg.c_str()); } }
		});
	}
	// a cell that is an argument of a message: storing into it leaves its neighbours and the message intact
	std::vector<Val> all; for(const char *t = ALLT; *t; t++) all.push_back(valsOf(*t, 0)[0]); all.push_back(vb(sub()));
	for(size_t x = 0; x < all.size(); x++) for(size_t y = 0; y < all.size(); y++) for(int pos = 0; pos < 3; pos++) for(int how = 0; how < 2; how++)
		CASE(vc::fmt("in a message, argument %d: %s then %s by %s", pos, str(all[x]).c_str(), str(all[y]).c_str(), how ? "copy" : "store"), {
			Msg m{"/m", {vi('i', 1), vs("two"), vd('d', 3)}}; m.v[pos] = all[x];
			t_osc_msg_u *u = mkM(m); t_osc_atom_u *a = osc_message_u_getArg(u, pos);
			if(how){ t_osc_atom_u *src = mkV(all[y]); osc_atom_u_copyInto(&a, src); osc_atom_u_free(src); } else setV(a, all[y]);
			m.v[pos] = all[y];
			Msg r = rdM(u); CHECK(eq(r, m), "message is %s", str(r).c_str());
			osc_message_u_free(u); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
			vc::trans(3); vc::state(str(m));
		});
	// arrays of cells
	std::vector<std::vector<Val>> tup; tup.push_back({});
	for(auto &x : all){ tup.push_back({x}); for(auto &y : all){ tup.push_back({x, y}); if(vc::tier) for(auto &z : all) tup.push_back({x, y, z}); } }
	auto mkA = [](const std::vector<Val> &v){ t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(v.size()); for(size_t k = 0; k < v.size(); k++) setV((t_osc_atom_u *)osc_atom_array_u_get(ar, k), v[k]); return ar; };
	auto rdA = [](t_osc_atom_ar_u *ar){ Msg m; m.a = "array"; for(long k = 0; k < osc_atom_array_u_getLen(ar); k++) m.v.push_back(rdV((t_osc_atom_u *)osc_atom_array_u_get(ar, k))); return m; };
	for(auto &t : tup) CASE("array " + str(Msg{"", t}), {
		t_osc_atom_ar_u *ar = mkA(t), *cp = osc_atom_array_u_copy(ar);
		CHECK(eq(rdA(cp), Msg{"array", t}), "copy is %s", str(rdA(cp)).c_str());
		for(int off = 0; off < 3; off++) for(int pre = 0; pre < 4; pre++){
			std::vector<Val> w; t_osc_atom_ar_u *d = NULL;
			if(pre){ w.assign(pre, vs("old")); d = mkA(w); }
			if(!pre && off) continue;
			osc_atom_array_u_copyInto(&d, ar, off);
			size_t n = std::max(w.size(), t.size() + off); size_t had = w.size(); w.resize(n, vt(0));
			for(size_t k = 0; k < t.size(); k++) w[off + k] = t[k];
			CHECK(osc_atom_array_u_getLen(d) == (long)n, "length after copyInto at %d: %ld, want %zu", off, osc_atom_array_u_getLen(d), n);
			for(size_t k = 0; k < n; k++){ if(k >= had && (k < (size_t)off || k >= off + t.size())) continue; Val r = rdV((t_osc_atom_u *)osc_atom_array_u_get(d, k)); CHECK(eq(r, w[k]), "copyInto at %d of %d: element %zu is %s, want %s", off, pre, k, str(r).c_str(), str(w[k]).c_str()); }
			osc_atom_array_u_free(d); vc::trans();
		}
		std::string want; std::vector<std::string> parts; bool txt = true;
		for(auto &v : t){ t_osc_atom_u *a = mkV(v); if(v.t == '.' || v.t == 'b' || v.t == 't'){ txt = false; } char *s = NULL; if(v.t != '.') { osc_atom_u_getString(a, 0, &s); want += s; want += " "; parts.push_back(s); osc_mem_free(s); } osc_atom_u_free(a); }
		if(txt) for(int sl : {-1, 0, 1, 2, 7, 60, 300}) for(int own = 0; own < 4; own++){ if(own && sl > 7) continue; /* separators of every length, the function's buffer and the caller's */
			std::string sep(sl < 0 ? 0 : sl, ';'), w; for(auto &x : parts) w += x + sep;
			long l = own == 1 ? 1 : own == 2 ? (long)w.size() + 1 : own == 3 ? 300 : 0; char *o = own ? (char *)osc_mem_alloc(l) : NULL; t_osc_err e = osc_atom_array_u_getStringArray(ar, &l, &o, sl < 0 ? NULL : sep.c_str()); CHECK(!e && o && w == o && l == (long)w.size() + 1, "text of the array with a separator of %d characters is %s (%ld), want %s", sl, vc::q(o).c_str(), l, vc::q(w).c_str()); osc_mem_free(o); vc::trans(); }
		if(txt){ long l = 0; char *o = NULL; osc_atom_array_u_getStringArray(ar, &l, &o, " "); CHECK(want == o && l == (long)want.size() + 1, "text of the array is %s (%ld)", vc::q(o).c_str(), l); osc_mem_free(o); }
		if(!t.empty()){
			double *d = NULL; float *f = NULL; int32_t *i = NULL; int64_t *h = NULL; uint32_t *I = NULL; uint64_t *H = NULL; char *b = NULL;
			osc_atom_array_u_getDoubleArray(ar, &d); osc_atom_array_u_getFloatArray(ar, &f); osc_atom_array_u_getInt32Array(ar, &i); osc_atom_array_u_getInt64Array(ar, &h); osc_atom_array_u_getUInt32Array(ar, &I); osc_atom_array_u_getUInt64Array(ar, &H); osc_atom_array_u_getBoolArray(ar, &b);
			for(size_t k = 0; k < t.size(); k++){ t_osc_atom_u *a = (t_osc_atom_u *)osc_atom_array_u_get(ar, k); if(t[k].t == 'b' || t[k].t == '.') continue;
				CHECK(d[k] == osc_atom_u_getDouble(a) && f[k] == osc_atom_u_getFloat(a) && i[k] == osc_atom_u_getInt32(a) && h[k] == osc_atom_u_getInt64(a) && b[k] == osc_atom_u_getBool(a), "typed array element %zu", k);
				if(isint(t[k].t) && t[k].i >= 0) CHECK(I[k] == (uint32_t)t[k].i && H[k] == (uint64_t)t[k].i && h[k] == t[k].i, "typed array element %zu of %s", k, str(t[k]).c_str()); }
			for(void *p : {(void *)d, (void *)f, (void *)i, (void *)h, (void *)I, (void *)H, (void *)b}) osc_mem_free(p);
		}
		osc_atom_array_u_free(ar); CHECK(eq(rdA(cp), Msg{"array", t}), "copy changed when the original was freed");
		osc_atom_array_u_free(cp);
		CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
		vc::trans(10);
	});
}
