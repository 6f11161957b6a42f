// C31: names, order, sizes and byte order of the types
#include "ref.hpp"
#include "spaces.hpp"
extern "C" {
#include "osc_typetag.h"
#include "osc_byteorder.h"
}
const char *PROP = "C31";
static int LA(){ return vc::tier ? 5 : 4; }
std::string bounds(){ return vc::fmt("all 256 typetag bytes and all pairs of them; every representative value of every type with every possible padding behind it; strings and blobs of up to 70 bytes; all 16-bit values and 32-, 64- and 128-bit patterns with one or two bytes set to any value; all lists of up to %d values of 14 types in every split over up to %d lists", LA(), LA()); }
void warmup(){}
static const char ORD[] = "NTFcCuUiIhHfds";
static int rank(int t){ const char *p = t ? strchr(ORD, t) : NULL; return p ? (int)(p - ORD) : -1; }
static std::string mem(const Val &v){ std::string o; auto put = [&](const void *p, size_t n){ o.assign((const char *)p, n); }; switch(v.t){ case 'c': case 'u': case 'i': { int32_t x = v.i; put(&x, 4); break; } case 'C': case 'U': case 'I': { uint32_t x = v.i; put(&x, 4); break; } case 'h': case 'H': put(&v.i, 8); break; case 'f': { float f = v.d; put(&f, 4); break; } case 'd': put(&v.d, 8); break; default: o = enc(v); } return o; }
static void one(const Val &v){
	std::string w = enc(v), m = mem(v); vc::state(w + v.t);
	for(int extra = 0; extra < 9; extra += 4) for(int f = 0; f < 2; f++){ std::string in = w + std::string(extra, f ? '\xff' : 0); if(in.empty()) in = " "; Buf b(in); size_t n = osc_sizeof(v.t, b.p); vc::trans(); CHECK(n == w.size(), "%s takes %zu bytes, osc_sizeof says %zu", str(v).c_str(), w.size(), n); }
	if(v.t == 't') return;   // kept in a structure in memory, see C16
	if(w.empty()) return;
	Buf in(m), out(w.size()), back(w.size()); char *p = out.p, *q = back.p; bool swap = isint(v.t) || isflt(v.t); CHECK(!!osc_mem_shouldByteswap(v.t) == swap, "%c is %sswapped", v.t, swap ? "not " : "");
	CHECK(osc_mem_encodeByteorder(v.t, in.p, &p) == OSC_ERR_NONE && p == out.p, "%s is not encoded", str(v).c_str()); CHECK(out.s() == w, "%s is encoded as %s, want %s", str(v).c_str(), vc::hex(out.p, out.n).c_str(), vc::hex(w.data(), w.size()).c_str());
	CHECK(in.s() == m, "encoding changed the value"); CHECK(osc_mem_decodeByteorder(v.t, out.p, &q) == OSC_ERR_NONE && q == back.p, "%s is not decoded", str(v).c_str()); CHECK(back.s() == m, "%s is decoded as %s, want %s", str(v).c_str(), vc::hex(back.p, back.n).c_str(), vc::hex(m.data(), m.size()).c_str()); vc::trans(2);
	if(swap){ q = out.p; osc_mem_decodeByteorder(v.t, out.p, &q); CHECK(out.s() == m, "%s decoded in place", str(v).c_str()); osc_mem_encodeByteorder(v.t, out.p, &q); CHECK(out.s() == w, "%s encoded in place", str(v).c_str()); vc::trans(2); }
}
static std::string rev(std::string s){ std::reverse(s.begin(), s.end()); return s; }
template<class T> static std::string bytes(T x){ return std::string((const char *)&x, sizeof x); }
template<class T> static void order(T x){
	std::string m = bytes(x), want = rev(m); T n = x, h = x;
	if(sizeof x == 2){ n = hton16(x); h = ntoh16(n); } else if(sizeof x == 4){ n = hton32(x); h = ntoh32(n); } else { n = hton64((uint64_t)x); h = ntoh64((uint64_t)n); }
	vc::trans(); CHECK(bytes(n) == want && h == x, "%s in network order is %s, want %s", vc::hex(m.data(), m.size()).c_str(), vc::hex(&n, sizeof n).c_str(), vc::hex(want.data(), want.size()).c_str());
}
static size_t listed(char t){ switch(t){ case 'N': case 'T': case 'F': return 0; case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': return 4; case 'h': case 'H': case 'd': case 't': return 8; } return -1; }
void explore(){
	CASE("names", { std::map<std::string, int> seen; for(int t = -128; t < 128; t++){ char *s = osc_typetag_str(t); vc::trans(); CHECK(s && *s, "type %d has no name", t); bool known = t > 0 && strchr("NTFcCuUiIhHfdsbt.", t); CHECK((strncmp(s, "unknown", 7) != 0) == known, "type %d is called %s", t, s); if(known) CHECK(seen.emplace(s, t).second, "types %c and %c are both called %s", seen[s], t, s); vc::state(s); if(!known && t > 32 && t < 127) CHECK(strchr(s + 13, t), "type %c is called %s", t, s); } });
	CASE("order", { for(int a = -128; a < 128; a++) for(int b = -128; b < 128; b++){ int r = osc_typetag_compare(a, b); vc::trans(); CHECK(a != b || !r, "%d is not equal to itself", a); if(rank(a) >= 0 && rank(b) >= 0){ int w = rank(a) - rank(b); CHECK((r < 0) == (w < 0) && (r > 0) == (w > 0), "%c and %c compare as %d", a, b, r); } } });
	for(int k = 0; k <= LA(); k++) for(const char *f = ORD; *f; f++) CASE(vc::fmt("largest type of %d values, the first %c", k, *f), {
		std::string s(1, *f); auto run = [&]{
			for(int split = 0; split < 1 << (k ? k - 1 : 0); split++){ std::vector<t_osc_atom_ar_u *> ar; size_t i = 0; while((int)i < k){ size_t e = i + 1; while((int)e < k && !(split >> (e - 1) & 1)) e++; t_osc_atom_ar_u *x = osc_atom_array_u_alloc(e - i); for(size_t j = i; j < e; j++){ Val v = valsOf(s[j], 0)[0]; setV((t_osc_atom_u *)osc_atom_array_u_get(x, j - i), v); } ar.push_back(x); i = e; }
				char g = osc_typetag_getLargestType(ar.size(), ar.data()); vc::trans(); char w = 'N'; for(int j = 0; j < k; j++){ char t = s[j] == 'F' ? 'T' : s[j]; if(rank(t) > rank(w)) w = t; } CHECK(g == w, "the largest type of %s is %c, want %c", s.c_str(), g, w); for(auto x : ar) osc_atom_array_u_free(x); } vc::state(s); };
		std::function<void()> go = [&]{ if((int)s.size() >= k){ run(); return; } for(const char *t = k > 3 ? "NTFcUiHfds" : ORD; *t; t++){ s += *t; go(); s.pop_back(); } }; if(k) go(); else if(f == ORD){ CHECK(osc_typetag_getLargestType(0, NULL) == 'N', "the largest type of nothing"); }
		CHECK(vc::live() == 0, "%ld blocks remain", vc::live()); });
	CASE("sizes by type", { char buf[32]; memset(buf, 0, 32); for(int t = 0; t < 256; t++){ CHECK(osc_sizeof(t, NULL) == (size_t)-1, "the size of no data of type %d", t); if(strchr("sSb.AjJmr", t) && t) continue; size_t n = osc_sizeof(t, buf); vc::trans(); CHECK(n == listed(t), "type %d has size %zd, want %zd", t, n, listed(t)); } });
	CASE("unknown types are not copied", { for(int t = 0; t < 256; t++){ if(t < 128 && osc_sizeof(t, (char *)"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0") != (size_t)-1) continue; Buf in(std::string(8, 'x')), out(8); char *p = out.p; memset(out.p, 'y', 8); CHECK(osc_mem_encodeByteorder(t, in.p, &p) != OSC_ERR_NONE && osc_mem_decodeByteorder(t, in.p, &p) != OSC_ERR_NONE, "type %d is copied", t); CHECK(out.s() == std::string(8, 'y') && p == out.p, "type %d writes %s", t, vc::q(out.s()).c_str()); vc::trans(2); }
		Buf out(8); char *p = out.p; for(int t : {'i', 's', 'h', 'q'}) CHECK(osc_mem_encodeByteorder(t, NULL, &p) != OSC_ERR_NONE && osc_mem_decodeByteorder(t, NULL, &p) != OSC_ERR_NONE, "no data of type %c is copied", t); });
	CASE("which types are swapped", { for(int t = 0; t < 256; t++){ if(t && strchr("aAjJeq", t)) continue; CHECK(!!osc_mem_shouldByteswap(t) == (isint(t) || isflt(t)), "type %d", t); vc::trans(); } });
	for(const char *t = ALLT; *t; t++) CASE(vc::fmt("values of type %c", *t), { for(auto &v : valsOf(*t, 1)) one(v); });
	CASE("numbers with any byte in any place", { for(const char *t = "cCuUiIhHfd"; *t; t++){ int n = listed(*t); for(int k = 0; k < n; k++) for(int b = 0; b < 256; b++) for(int rest : {0, 0xff, 0x40}){ uint64_t u = 0; for(int j = 0; j < n; j++) u |= (uint64_t)(uint8_t)(j == k ? b : rest) << 8 * j; Val v; if(*t == 'f'){ uint32_t x = u; float f; memcpy(&f, &x, 4); if(f != f) continue; v = vd('f', f); } else if(*t == 'd'){ double d; memcpy(&d, &u, 8); v = vd('d', d); } else v = vi(*t, n == 8 ? (int64_t)u : strchr("CUI", *t) ? (int64_t)(uint32_t)u : (int64_t)(int32_t)u); one(v); } } });
	CASE("bundles", { Bndl a, b, c; b.m.push_back(Msg{"/a", {vi('i', 1)}}); c.m.push_back(Msg{"/abc", {vs("xyz"), vb(b)}}); c.m.push_back(Msg{"/d", {}}); for(auto &x : {a, b, c}) one(vb(x)); });
	CASE("symbols", { for(int n = 0; n < 300; n++){ std::string s = enc(vs(std::string(n, 'x'))); Buf b(s); CHECK(osc_sizeof('S', b.p) == s.size(), "a symbol of %d characters", n); } });
	CASE("strings and blobs of any length", { for(int n = 0; n < 300; n++) for(int c : {(int)'x', 0x80, 0xff, (int)','}){ one(vs(std::string(n, c))); one(vblob(std::string(n, c))); if(!(n % 4)) one(vblob(std::string(n, 0))); } for(int n : {255, 256, 65535, 65536, 70001}) { one(vs(std::string(n, 'q'))); one(vblob(std::string(n, 'q'))); } });
	CASE("byte order of 16 bits", { for(int x = 0; x < 65536; x++) order<uint16_t>(x); });
	CASE("byte order of 32 bits", { for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) for(uint32_t a = 0; a < 256; a++) for(uint32_t b = 0; b < 256; b += 5){ order<uint32_t>(a << 8 * k ^ b << 8 * l); order<uint32_t>(~(a << 8 * k ^ b << 8 * l)); } });
	CASE("byte order of 64 bits", { for(int k = 0; k < 8; k++) for(int l = 0; l < 8; l++) for(uint64_t a = 0; a < 256; a++) for(uint64_t b = 0; b < 256; b += 15){ order<uint64_t>(a << 8 * k ^ b << 8 * l); order<uint64_t>(~(a << 8 * k ^ b << 8 * l)); } });
	CASE("byte order of 128 bits", { for(int k = 0; k < 16; k++) for(int l = 0; l < 16; l++) for(int a = 0; a < 256; a += 3) for(int base : {0, 0xff, 0x5a}){ std::string s(16, base); s[k] = a; s[l] ^= 0x11; uint128_t x; memcpy(&x, s.data(), 16); uint128_t n = hton128(x), h = ntoh128(n); vc::trans(); CHECK(std::string((char *)&n, 16) == rev(s) && !memcmp(&h, &x, 16), "%s in network order is %s", vc::hex(s.data(), 16).c_str(), vc::hex(&n, 16).c_str()); } });
	CASE("byte order of floating point numbers", { for(auto &v : valsOf('f', 1)){ float f = v.d; uint32_t n = htonf32(f); float g; uint32_t h; memcpy(&g, &n, 4); h = ntohf32(g); CHECK(bytes(n) == enc(v) && !memcmp(&h, &f, 4), "%s", str(v).c_str()); } for(auto &v : valsOf('d', 1)){ double d = v.d; uint64_t n = htonf64(d), h; double g; memcpy(&g, &n, 8); h = ntohf64(g); CHECK(bytes(n) == enc(v) && !memcmp(&h, &d, 8), "%s", str(v).c_str()); } });
	CASE("classes of types", { for(int t = 0; t < 128; t++){ CHECK(OSC_TYPETAG_ISFLOAT(t) == isflt(t) && OSC_TYPETAG_ISINT(t) == isint(t) && OSC_TYPETAG_ISBOOL(t) == (t == 'T' || t == 'F') && OSC_TYPETAG_ISSTRING(t) == (t == 's') && OSC_TYPETAG_ISNUMERIC(t) == (isint(t) || isflt(t) || t == 'T' || t == 'F'), "type %c", t); } });
}
