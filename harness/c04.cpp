// C04: typed reads, in memory and encoded
#include "ref.hpp"
extern "C" {
#include "osc_byteorder.h"
}
const char *PROP = "C04";
std::string bounds(){ return std::string("copies as a blob of values of every type into buffers of every size up to 8 more than needed; ") + vc::fmt("every stored type x every read type: 8-bit exhaustively, 16-bit %s, 32/64-bit all values +-2^k+{-1,0,1}, %s doubles and floats, %d texts; byte-order macros on the same sets and all 16-bit values", vc::tier ? "exhaustively" : "at +-2^k+{-1,0,1}", vc::tier ? "about 900" : "about 300", 24); }
void warmup(){}
struct Exp { bool def; int64_t i; uint64_t u; double d; };
// the number a stored value denotes
static std::vector<Val> values(){
	std::vector<Val> r;
	for(char t : {'T', 'F', 'N'}) r.push_back(vt(t));
	for(int k = -128; k < 128; k++) r.push_back(vi('c', k));
	for(int k = 0; k < 256; k++) r.push_back(vi('C', k));
	auto bits = [&](char t, int n, bool sg){
		std::set<int64_t> s;
		for(int k = 0; k < n; k++) for(int j = -1; j <= 1; j++) for(int sign : {1, -1}){
			int64_t v = (int64_t)(((uint64_t)1 << k) + j) * sign;
			if(n < 64){ if(sg){ int64_t m = (int64_t)1 << (n - 1); if(v < -m || v >= m) continue; }else if(v < 0 || v >= (int64_t)1 << n) continue; }
			s.insert(v);
		}
		if(!sg){ s.insert(n < 64 ? ((int64_t)1 << n) - 1 : -1); } else { s.insert(n < 64 ? -((int64_t)1 << (n - 1)) : INT64_MIN); s.insert(n < 64 ? ((int64_t)1 << (n - 1)) - 1 : INT64_MAX); }
		for(int64_t p : {0x12345678ll, 0x123456789abcdef0ll, 0x1234ll, (long long)0xfedcba9876543210ull}) if(n == 64 || (p >= 0 && p < (int64_t)1 << (n - 1))) s.insert(p);
		for(int64_t v : s) r.push_back(vi(t, v));
	};
	if(vc::tier) for(int k = -32768; k < 32768; k++){ r.push_back(vi('u', k)); r.push_back(vi('U', k & 0xffff)); }
	else { bits('u', 16, true); bits('U', 16, false); }
	bits('i', 32, true); bits('I', 32, false); bits('h', 64, true); bits('H', 64, false);
	for(char t : {'f', 'd'}){
		std::vector<double> ds = {0., -0., .5, -.5, 1, -1, 1.5, -1.5, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., 9223372036854775807., -9223372036854775808., 18446744073709551615., 1e10, -1e10, 1e30, .1, FLT_MAX, DBL_MAX, FLT_MIN, 1e-45, 5e-324, INFINITY, -INFINITY, NAN, 3.999999, -3.999999};
		for(int k = -140; k < 140; k += vc::tier ? 1 : 5) for(double m : {1., -1.25, 1.99}) ds.push_back(ldexp(m, k));
		for(double x : ds) r.push_back(vd(t, x));
	}
	for(auto s : {"", "0", "7", "12", "-7", "+3", "007", "3.5", "-0.25", "1e3", "1E-2", "abc", "12abc", "  5", "0x10", "9", "127", "128", "255", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "/a"}) r.push_back(vs(s));
	return r;
}
template<class T> static bool fits(double d){ return d == d && trunc(d) >= (double)std::numeric_limits<T>::min() && (sizeof(T) == 8 ? trunc(d) < (std::numeric_limits<T>::is_signed ? 9223372036854775808. : 18446744073709551616.) : trunc(d) <= (double)std::numeric_limits<T>::max()); }
// expected conversion to integer type T (ordinary C conversion); false where C leaves it undefined
template<class T> static bool expInt(const Val &v, T &o){
	switch(v.t){
	case 'T': o = 1; return true;
	case 'F': case 'N': o = 0; return true;
	case 'f': case 'd': if(!fits<T>(v.d)) return false; o = (T)v.d; return true;
	case 's': if(sizeof(T) == 1){ o = (T)v.s.c_str()[0]; return true; }
		if(sizeof(T) == 8) o = std::numeric_limits<T>::is_signed ? (T)strtoll(v.s.c_str(), NULL, 10) : (T)strtoull(v.s.c_str(), NULL, 10);
		else o = std::numeric_limits<T>::is_signed ? (T)strtol(v.s.c_str(), NULL, 10) : (T)strtoul(v.s.c_str(), NULL, 10);
		return true;
	}
	o = v.t == 'H' ? (T)(uint64_t)v.i : (T)v.i; return true;
}
static double expDbl(const Val &v){ switch(v.t){ case 'T': return 1; case 'F': case 'N': return 0; case 'f': case 'd': return v.d; case 's': return strtod(v.s.c_str(), NULL); case 'H': return (double)(uint64_t)v.i; } return (double)v.i; }
static float expFlt(const Val &v){ switch(v.t){ case 'T': return 1; case 'F': case 'N': return 0; case 'f': case 'd': return (float)v.d; case 's': return strtof(v.s.c_str(), NULL); case 'H': return (float)(uint64_t)v.i; } return (float)v.i; }
static int expBool(const Val &v){ switch(v.t){ case 'T': return 1; case 'F': case 'N': case 's': return 0; case 'f': case 'd': return v.d != 0; } return v.i != 0; }
static bool same(float a, float b){ return (a != a && b != b) || memcmp(&a, &b, 4) == 0; }
#define RD(NAME, T) { T want; T gu = osc_atom_u_get##NAME(u), gs = osc_atom_s_get##NAME(s); if(expInt<T>(v, want)){ \
	CHECK(gu == want, "in memory: %s read as " #NAME " gives %lld, want %lld", str(v).c_str(), (long long)gu, (long long)want); \
	CHECK(gs == want, "encoded: %s read as " #NAME " gives %lld, want %lld", str(v).c_str(), (long long)gs, (long long)want); vc::trans(2); } }
static void one(const Val &v){
	std::string e = enc(v);
	vc::state(std::string(1, v.t) + e);
	t_osc_atom_u *u = mkV(v);
	Buf b(e);
	t_osc_atom_s *s = osc_atom_s_alloc(v.t, b.p);
	RD(Int8, int8_t) RD(Int16, int16_t) RD(Int32, int32_t) RD(Int64, int64_t) RD(UInt8, uint8_t) RD(UInt16, uint16_t) RD(UInt32, uint32_t) RD(UInt64, uint64_t) RD(Int, int)
	double dw = expDbl(v), du = osc_atom_u_getDouble(u), ds = osc_atom_s_getDouble(s);
	CHECK(eqd(du, dw), "in memory: %s read as double gives %.17g", str(v).c_str(), du); CHECK(eqd(ds, dw), "encoded: %s read as double gives %.17g", str(v).c_str(), ds);
	float fw = expFlt(v), fu = osc_atom_u_getFloat(u), fs = osc_atom_s_getFloat(s);
	CHECK(same(fu, fw), "in memory: %s read as float gives %.9g", str(v).c_str(), fu); CHECK(same(fs, fw), "encoded: %s read as float gives %.9g", str(v).c_str(), fs);
	CHECK(osc_atom_u_getBool(u) == expBool(v), "in memory: %s read as boolean gives %d", str(v).c_str(), osc_atom_u_getBool(u));
	CHECK(osc_atom_s_getBool(s) == expBool(v), "encoded: %s read as boolean gives %d", str(v).c_str(), osc_atom_s_getBool(s));
	// text: same in both forms, measured exactly, and the number for integers
	char *tu = NULL, *ts = NULL; int nu = osc_atom_u_getString(u, 0, &tu), ns = osc_atom_s_getString(s, 0, &ts);
	CHECK(tu && ts && nu == ns && !memcmp(tu, ts, nu) && tu[nu] == 0, "text of %s: %s in memory, %s encoded", str(v).c_str(), vc::q(tu).c_str(), vc::q(ts).c_str());
	CHECK(osc_atom_u_getStringLen(u) == nu && osc_atom_s_getStringLen(s) == ns, "text length of %s: announced %d and %d, is %d", str(v).c_str(), osc_atom_u_getStringLen(u), osc_atom_s_getStringLen(s), nu);
	std::string T(tu, nu), W; bool chk = true;
	if(v.t == 's') W = v.s; else if(v.t == 'T') W = "true"; else if(v.t == 'F') W = "false"; else if(v.t == 'N') W = "nil";
	else if(v.t == 'c' || v.t == 'C') W = std::string("'") + (char)v.i + "'";
	else if(v.t == 'H') W = std::to_string((uint64_t)v.i); else if(isint(v.t)) W = std::to_string((long long)v.i); else chk = false;
	if(chk) CHECK(T == W, "text of %s is %s", str(v).c_str(), vc::q(T).c_str());
	if(isflt(v.t)){ double r = strtod(T.c_str(), NULL); CHECK((v.d != v.d && r != r) || r == v.d || fabs(r - v.d) <= fabs(v.d) * 5e-6 || fabs(v.d) < 1e-300 || (std::isinf(r) && fabs(v.d) > 1.797e308), "text of %s is %s", str(v).c_str(), T.c_str()); }
	CHECK(rdtt(osc_atom_u_getTimetag(u)) == rdtt(osc_atom_s_getTimetag(s)), "timetag read of %s differs", str(v).c_str());
	CHECK(!osc_atom_u_getBlob(u) && !osc_atom_s_getBlob(s), "blob read of a non-blob");
	CHECK(!osc_atom_u_getBndl(u) && !osc_atom_s_getBndl(s), "bundle read of a non-bundle");
	// as a blob: the big-endian bytes of the value
	if(strchr("iIhHfd", v.t)){
		char *bu = NULL, *bs = NULL; int32_t lu = 0, ls = 0; osc_atom_u_getBlobCopy(u, &lu, &bu); osc_atom_s_getBlobCopy(&bs, &ls, s);
		std::string w; be(w, e.size(), 4); w += e;
		CHECK(bu && lu >= (int)w.size() && !memcmp(bu, w.data(), w.size()), "in memory: %s read as blob gives %s", str(v).c_str(), vc::hex(bu, w.size()).c_str());
		CHECK(bs && ls >= (int)w.size() && !memcmp(bs, w.data(), w.size()), "encoded: %s read as blob gives %s", str(v).c_str(), vc::hex(bs, w.size()).c_str());
	}
	CHECK(b.s() == e && eq(rdV(u), v), "reading changed the value");
	vc::trans(12);
	// negation
	if(isint(v.t) || isflt(v.t)){   // the negative of an unsigned value is the signed value of the same size
		Val w = v; if(isflt(v.t)) w.d = -v.d; else if(v.t == 'c') w.i = (int8_t)-v.i; else if(v.t == 'u') w.i = (int16_t)-v.i; else if(v.t == 'i') w.i = (int32_t)-(uint32_t)v.i; else if(v.t == 'h') w.i = (int64_t)(0 - (uint64_t)v.i); else if(v.t == 'C') w = vi('c', (int8_t)-v.i); else if(v.t == 'U') w = vi('u', (int16_t)-v.i); else if(v.t == 'I') w = vi('i', (int32_t)(0u - (uint32_t)v.i)); else w = vi('h', (int64_t)(0 - (uint64_t)v.i));
		osc_atom_u_negate(u); CHECK(eq(rdV(u), w), "in memory: negated %s is %s", str(v).c_str(), str(rdV(u)).c_str());
		osc_atom_s_negate(s); CHECK(eq(rdVs(s), w), "encoded: negated %s is %s", str(v).c_str(), str(rdVs(s)).c_str());
		vc::trans(2);
	}
}
// copies as a blob into the caller's buffer of every size: nothing is written outside it, and when there is room it holds what a copy of its own would
static void blobInto(const Val &v){
	std::string e = enc(v); t_osc_atom_u *u = mkV(v); Buf b(e); t_osc_atom_s *s = osc_atom_s_alloc(v.t, b.p);
	char *own[2] = {NULL, NULL}; int32_t lo[2] = {0, 0}; osc_atom_u_getBlobCopy(u, &lo[0], &own[0]); osc_atom_s_getBlobCopy(&own[1], &lo[1], s);
	for(int k = 0; k < 2; k++){ CHECK(own[k] && lo[k] >= 4, "%s as a blob: no copy", str(v).c_str()); int len = rbe(own[k], 4); CHECK(len >= 0 && 4 + len <= lo[k], "%s as a blob: %d bytes announced in a block of %d", str(v).c_str(), len, lo[k]); int fill = v.t == 's' ? (int)v.s.size() + 1 : len;
		if(v.t == 's') CHECK(!memcmp(own[k] + 4, v.s.c_str(), v.s.size()), "%s as a blob is other text", str(v).c_str());
		for(int n = 0; n <= lo[k] + 8; n++){ Buf x(n); memset(x.p, 'z', n); char *p = x.p; int32_t nn = n; if(k) osc_atom_s_getBlobCopy(&p, &nn, s); else osc_atom_u_getBlobCopy(u, &nn, &p); vc::trans();
			CHECK(p == x.p && nn == n, "%s as a blob: the caller's buffer of %d bytes was replaced", str(v).c_str(), n);
			if(n >= lo[k]) CHECK((v.t == 's' || rbe(x.p, 4) == (uint32_t)len) && !memcmp(x.p + 4, own[k] + 4, fill), "%s as a blob in a buffer of %d bytes: %s", str(v).c_str(), n, vc::hex(x.p, n).c_str()); } }
	osc_mem_free(own[0]); osc_mem_free(own[1]); osc_atom_u_free(u); osc_atom_s_free(s); CHECK(b.s() == e, "reading changed the value");
}
static void stored(const Val &v){   // text, blobs and timetags read back as stored, from either form
	std::string e = enc(v); vc::state(std::string(1, v.t) + e); t_osc_atom_u *u = mkV(v); Buf b(e); t_osc_atom_s *s = osc_atom_s_alloc(v.t, b.p);
	CHECK(eq(rdV(u), v) && eq(rdVs(s), v), "%s reads back as %s / %s", str(v).c_str(), str(rdV(u)).c_str(), str(rdVs(s)).c_str());
	if(v.t == 't'){ CHECK(eqd(osc_atom_u_getDouble(u), osc_atom_s_getDouble(s)) && same(osc_atom_u_getFloat(u), osc_atom_s_getFloat(s)), "%s as a number: %.17g in memory, %.17g encoded", str(v).c_str(), osc_atom_u_getDouble(u), osc_atom_s_getDouble(s));
		double w = (double)((uint64_t)v.i >> 32) + (double)(uint32_t)v.i / 4294967296.; double g = osc_atom_s_getDouble(s); CHECK(fabs(g - w) <= 1e-6, "%s as a number is %.17g, want %.17g", str(v).c_str(), g, w); }
	if(v.t == 'b'){
		char *bu = NULL, *bs = NULL; int32_t lu = 0, ls = 0; osc_atom_u_getBlobCopy(u, &lu, &bu); osc_atom_s_getBlobCopy(&bs, &ls, s);
		CHECK(bu && bs && lu == ls && lu >= 4 + (int)v.s.size() && rbe(bu, 4) == v.s.size() && !memcmp(bu, bs, 4 + v.s.size()) && !memcmp(bu + 4, v.s.data(), v.s.size()), "blob copies of %s", str(v).c_str());
		for(int n = 4 + v.s.size(); n <= 12 + (int)v.s.size(); n++){ Buf x(n), y(n); char *px = x.p, *py = y.p; int32_t nx = n, ny = n; osc_atom_u_getBlobCopy(u, &nx, &px); osc_atom_s_getBlobCopy(&py, &ny, s); CHECK(!memcmp(x.p, y.p, 4 + v.s.size()) && !memcmp(x.p + 4, v.s.data(), v.s.size()), "blob copy into a buffer of %d", n); }
		CHECK(osc_atom_u_getBlobLen(u) == (int)v.s.size() && osc_atom_s_getBlobLen(s) == (int)v.s.size(), "blob length");
	}
	vc::trans(6);
}
void explore(){
	auto vals = values();
	size_t k = 0;
	while(k < vals.size()){   // grouped: one case per 16 values of a type
		size_t e = k; while(e < vals.size() && e < k + 16 && vals[e].t == vals[k].t) e++;
		CASE(vc::fmt("%s .. %s", str(vals[k]).c_str(), str(vals[e - 1]).c_str()), { for(size_t j = k; j < e; j++) one(vals[j]); });
		k = e;
	}
	for(char t : {'s', 'b', 't'}) for(auto &v : valsOf(t, 1)) CASE("as stored " + str(v), { stored(v); });
	for(uint32_t f : {0u, 1u, 0x80000000u, 0xffffffffu, 0x40000000u}) for(uint32_t s : {0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 2208988800u, 0xffffffffu}){ Val v = vi('t', (int64_t)((uint64_t)s << 32 | f)); CASE("as stored " + str(v), { stored(v); }); }
	for(int n0 = 0; n0 < 300; n0 += 30) CASE(vc::fmt("texts, blobs and nested messages of %d.. characters", n0), { for(int n = n0; n < n0 + 30; n++){ for(const std::string &x : {std::string(n, 'x'), std::string(n, ' ') + "12", std::string(n, '0') + "7", std::string("1.") + std::string(n, '5'), std::string(n, '\xe9')}){ one(vs(x)); stored(vs(x)); } std::string z; for(int j = 0; j < n; j++) z += (char)(j * 37); stored(vblob(z)); blobInto(vs(std::string(n, 'q'))); blobInto(vb(Bndl{0, {Msg{"/" + std::string(n + 1, 'm'), {vs(std::string(n, 'y')), vi('i', n)}}}})); } });
	for(int n = 0; n < 40; n++){ std::string z; for(int j = 0; j < n; j++) z += (char)(j * 37); CASE(vc::fmt("blob of %d", n), { stored(vblob(z)); }); }
	for(int hi = 0; hi < 256; hi++) CASE(vc::fmt("byte order, 16-bit %02x..", hi), {
		for(int lo = 0; lo < 256; lo++){ uint16_t x = hi << 8 | lo, y = hton16(x); const unsigned char *p = (unsigned char *)&y; CHECK(p[0] == hi && p[1] == lo && (uint16_t)ntoh16(y) == x, "16-bit %04x", x); vc::trans(2); }
		for(int k = 0; k < 4; k++) for(uint32_t base : {0u, 0x01020304u, 0xfedcba98u}){ uint32_t x = base ^ (uint32_t)hi << 8 * k, y = hton32(x); std::string w; be(w, x, 4); CHECK(!memcmp(&y, w.data(), 4) && ntoh32(y) == x, "32-bit %08x", x); vc::trans(2); }
		for(int k = 0; k < 8; k++) for(uint64_t base : {0ull, 0x0102030405060708ull, 0xfedcba9876543210ull}){ uint64_t x = base ^ (uint64_t)hi << 8 * k, y = hton64(x); std::string w; be(w, x, 8); CHECK(!memcmp(&y, w.data(), 8) && (uint64_t)ntoh64(y) == x, "64-bit %016llx", (unsigned long long)x);
			uint128_t q = {x, ~x + 3}, r = hton128(q); std::string w2; be(w2, ~x + 3, 8); be(w2, x, 8); CHECK(!memcmp(&r, w2.data(), 16), "128-bit"); uint128_t r2 = ntoh128(r); CHECK(r2.l1 == q.l1 && r2.l2 == q.l2, "128-bit inverse"); vc::trans(4); }
	});
	std::vector<Val> bv; for(const char *t = ALLT; *t; t++) for(auto &v : valsOf(*t, vc::tier)) bv.push_back(v);
	for(int n = 0; n < 12; n++) bv.push_back(vs(std::string(n, 'q'))); bv.push_back(vb(Bndl())); bv.push_back(vb(Bndl{0, {Msg{"/s", {vi('i', 5), vs("q")}}}})); bv.push_back(vb(Bndl{0, {Msg{"/s", {vb(Bndl{0, {Msg{"/t", {}}}})}}}}));
	for(auto &v : bv) CASE("as a blob in a given buffer: " + str(v), { blobInto(v); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); });
}
