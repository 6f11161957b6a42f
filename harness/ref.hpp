// Reference data model of OSC bundles, an independent codec, and bridges to libo's two forms.
#pragma once
#include "vc.hpp"
#include "libo.hpp"
struct Bndl;
struct Val {
	char t = 'N';
	int64_t i = 0;         // c C u U i I h H: the value; t: sec << 32 | frac
	double d = 0;          // f d
	std::string s;         // s: text, b: bytes
	std::shared_ptr<Bndl> b;
};
struct Msg { std::string a; std::vector<Val> v; };
struct Bndl { uint64_t tt = 0; std::vector<Msg> m; };

static inline Val vi(char t, int64_t i){ Val v; v.t = t; v.i = i; return v; }
static inline Val vd(char t, double d){ Val v; v.t = t; v.d = t == 'f' ? (double)(float)d : d; return v; }
static inline Val vs(const std::string &s){ Val v; v.t = 's'; v.s = s; return v; }
static inline Val vblob(const std::string &s){ Val v; v.t = 'b'; v.s = s; return v; }
static inline Val vt(char t){ Val v; v.t = t; return v; }
static inline Val vb(const Bndl &b){ Val v; v.t = '.'; v.b = std::make_shared<Bndl>(b); return v; }

static inline bool isint(char t){ return t && strchr("cCuUiIhH", t); }
static inline bool isflt(char t){ return t == 'f' || t == 'd'; }
bool static inline eq(const Bndl &a, const Bndl &b, bool tt = true);
static inline bool eqd(double a, double b){ return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
static inline bool eq(const Val &a, const Val &b){
	if(a.t != b.t) return false;
	if(isint(a.t) || a.t == 't') return a.i == b.i;
	if(isflt(a.t)) return eqd(a.d, b.d);
	if(a.t == 's' || a.t == 'b') return a.s == b.s;
	if(a.t == '.') return eq(*a.b, *b.b, false);
	return true;
}
static inline bool eq(const Msg &a, const Msg &b){
	if(a.a != b.a || a.v.size() != b.v.size()) return false;
	for(size_t k = 0; k < a.v.size(); k++) if(!eq(a.v[k], b.v[k])) return false;
	return true;
}
static inline bool eq(const Bndl &a, const Bndl &b, bool tt){
	if((tt && a.tt != b.tt) || a.m.size() != b.m.size()) return false;
	for(size_t k = 0; k < a.m.size(); k++) if(!eq(a.m[k], b.m[k])) return false;
	return true;
}
static inline std::string str(const Bndl &b);
static inline std::string str(const Val &v){
	if(isint(v.t)) return vc::fmt("%c:%lld", v.t, (long long)v.i);
	if(isflt(v.t)) return vc::fmt("%c:%.17g", v.t, v.d);
	if(v.t == 's') return "s:" + vc::q(v.s);
	if(v.t == 'b') return "b:<" + vc::hex(v.s.data(), v.s.size()) + ">";
	if(v.t == 't') return vc::fmt("t:%08x.%08x", (uint32_t)((uint64_t)v.i >> 32), (uint32_t)v.i);
	if(v.t == '.') return str(*v.b);
	if(v.t >= 32 && v.t < 127) return std::string(1, v.t);
	return vc::fmt("?%d", v.t);
}
static inline std::string str(const Msg &m){ std::string r = m.a; for(auto &v : m.v) r += " " + str(v); return r; }
static inline std::string str(const Bndl &b){ std::string r = b.tt ? vc::fmt("{@%llx ", (unsigned long long)b.tt) : "{"; bool f = true; for(auto &m : b.m){ if(!f) r += ", "; f = false; r += str(m); } return r + "}"; }

// ------------------------------------------------------------- independent codec
static inline void be(std::string &o, uint64_t x, int n){ for(int k = n - 1; k >= 0; k--) o += (char)(x >> (8 * k)); }
static inline void pstr(std::string &o, const std::string &s){ o += s; do o += '\0'; while(o.size() % 4); }  // o aligned on entry
static inline std::string enc(const Bndl &b);
static inline std::string enc(const Val &v){
	std::string o;
	switch(v.t){
	case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': be(o, (uint32_t)v.i, 4); break;
	case 'h': case 'H': case 't': be(o, (uint64_t)v.i, 8); break;
	case 'f': { float f = (float)v.d; uint32_t u; memcpy(&u, &f, 4); be(o, u, 4); break; }
	case 'd': { uint64_t u; memcpy(&u, &v.d, 8); be(o, u, 8); break; }
	case 's': pstr(o, v.s); break;
	case 'b': be(o, v.s.size(), 4); o += v.s; while(o.size() % 4) o += '\0'; break;
	case '.': { std::string e = enc(*v.b); be(o, e.size(), 4); o += e; break; }
	}
	return o;
}
static inline std::string enc(const Msg &m){   // without the size prefix
	std::string o; pstr(o, m.a);
	std::string t = ","; for(auto &v : m.v) t += v.t;
	pstr(o, t);
	for(auto &v : m.v) o += enc(v);
	return o;
}
static inline std::string enc(const Bndl &b){
	std::string o("#bundle\0", 8); be(o, b.tt, 8);
	for(auto &m : b.m){ std::string e = enc(m); be(o, e.size(), 4); o += e; }
	return o;
}
static inline uint64_t rbe(const char *p, int n){ uint64_t r = 0; for(int k = 0; k < n; k++) r = r << 8 | (unsigned char)p[k]; return r; }
static inline bool dec(const char *p, size_t n, Bndl &b);
// strict: everything must fit, strings terminated and zero padded
static inline bool decstr(const char *&p, const char *e, std::string &s){
	const char *z = (const char *)memchr(p, 0, e - p); if(!z) return false;
	s.assign(p, z - p); size_t l = (s.size() + 4) & ~(size_t)3;
	if((size_t)(e - p) < l) return false;
	for(const char *k = z; k < p + l; k++) if(*k) return false;
	p += l; return true;
}
static inline bool dec(const char *p, size_t n, Msg &m){
	const char *e = p + n; std::string t;
	if(n % 4 || !decstr(p, e, m.a)) return false;
	m.v.clear();
	if(p == e) return true;
	if(!decstr(p, e, t) || t.empty() || t[0] != ',') return false;
	for(size_t k = 1; k < t.size(); k++){
		Val v; v.t = t[k]; size_t left = e - p;
		switch(v.t){
		case 'N': case 'T': case 'F': break;
		case 'c': case 'u': case 'i': if(left < 4) return false; v.i = (int32_t)rbe(p, 4); p += 4; break;
		case 'C': case 'U': case 'I': if(left < 4) return false; v.i = (uint32_t)rbe(p, 4); p += 4; break;
		case 'h': case 'H': case 't': if(left < 8) return false; v.i = rbe(p, 8); p += 8; break;
		case 'f': { if(left < 4) return false; uint32_t u = rbe(p, 4); float f; memcpy(&f, &u, 4); v.d = f; p += 4; break; }
		case 'd': { if(left < 8) return false; uint64_t u = rbe(p, 8); memcpy(&v.d, &u, 8); p += 8; break; }
		case 's': if(!decstr(p, e, v.s)) return false; break;
		case 'b': { if(left < 4) return false; uint32_t l = rbe(p, 4); p += 4; if(l > 0x7fffffff || (size_t)(e - p) < ((l + 3) & ~3u)) return false; v.s.assign(p, l); p += (l + 3) & ~3u; break; }
		case '.': { if(left < 4) return false; uint32_t l = rbe(p, 4); p += 4; if((size_t)(e - p) < l) return false; v.b = std::make_shared<Bndl>(); if(!dec(p, l, *v.b)) return false; p += l; break; }
		default: return false;
		}
		m.v.push_back(v);
	}
	return p == e;
}
static inline bool dec(const char *p, size_t n, Bndl &b){
	b.m.clear();
	if(n < 16 || n % 4 || memcmp(p, "#bundle\0", 8)) return false;
	b.tt = rbe(p + 8, 8);
	size_t o = 16;
	while(o < n){
		if(n - o < 4) return false;
		uint32_t l = rbe(p + o, 4); o += 4;
		if(l > n - o) return false;
		Msg m; if(!dec(p + o, l, m)) return false;
		b.m.push_back(m); o += l;
	}
	return true;
}
static inline bool dec(const std::string &s, Bndl &b){ return dec(s.data(), s.size(), b); }

// ------------------------------------------------------------- bridges
static inline t_osc_timetag mktt(uint64_t x){ t_osc_timetag t; t.sec = x >> 32; t.frac_sec = (uint32_t)x; return t; }
static inline uint64_t rdtt(t_osc_timetag t){ return (uint64_t)t.sec << 32 | t.frac_sec; }
static inline std::string blobbytes(const std::string &s){ std::string o; be(o, s.size(), 4); o += s; return o; }
static inline t_osc_bndl_u *mkB(const Bndl &b);
static inline t_osc_atom_u *addV(t_osc_msg_u *m, const Val &v){
	switch(v.t){
	case 'c': return osc_message_u_appendInt8(m, v.i);
	case 'C': return osc_message_u_appendUInt8(m, v.i);
	case 'u': return osc_message_u_appendInt16(m, v.i);
	case 'U': return osc_message_u_appendUInt16(m, v.i);
	case 'i': return osc_message_u_appendInt32(m, v.i);
	case 'I': return osc_message_u_appendUInt32(m, v.i);
	case 'h': return osc_message_u_appendInt64(m, v.i);
	case 'H': return osc_message_u_appendUInt64(m, v.i);
	case 'f': return osc_message_u_appendFloat(m, (float)v.d);
	case 'd': return osc_message_u_appendDouble(m, v.d);
	case 's': return osc_message_u_appendString(m, v.s.c_str());
	case 'b': { std::string bb = blobbytes(v.s); return osc_message_u_appendBlob(m, &bb[0]); }
	case 't': return osc_message_u_appendTimetag(m, mktt(v.i));
	case 'T': return osc_message_u_appendTrue(m);
	case 'F': return osc_message_u_appendFalse(m);
	case 'N': return osc_message_u_appendNil(m);
	case '.': return osc_message_u_appendBndl_u(m, mkB(*v.b));
	}
	abort();
}
static inline void setV(t_osc_atom_u *a, const Val &v){
	switch(v.t){
	case 'c': osc_atom_u_setInt8(a, v.i); break;
	case 'C': osc_atom_u_setUInt8(a, v.i); break;
	case 'u': osc_atom_u_setInt16(a, v.i); break;
	case 'U': osc_atom_u_setUInt16(a, v.i); break;
	case 'i': osc_atom_u_setInt32(a, v.i); break;
	case 'I': osc_atom_u_setUInt32(a, v.i); break;
	case 'h': osc_atom_u_setInt64(a, v.i); break;
	case 'H': osc_atom_u_setUInt64(a, v.i); break;
	case 'f': osc_atom_u_setFloat(a, (float)v.d); break;
	case 'd': osc_atom_u_setDouble(a, v.d); break;
	case 's': osc_atom_u_setString(a, v.s.c_str()); break;
	case 'b': { std::string bb = blobbytes(v.s); osc_atom_u_setBlob(a, &bb[0]); break; }
	case 't': osc_atom_u_setTimetag(a, mktt(v.i)); break;
	case 'T': osc_atom_u_setTrue(a); break;
	case 'F': osc_atom_u_setFalse(a); break;
	case 'N': osc_atom_u_setNil(a); break;
	case '.': osc_atom_u_setBndl_u(a, mkB(*v.b)); break;
	default: abort();
	}
}
static inline t_osc_atom_u *mkV(const Val &v){ t_osc_atom_u *a = osc_atom_u_alloc(); setV(a, v); return a; }
static inline t_osc_msg_u *mkM(const Msg &m){
	t_osc_msg_u *r = osc_message_u_alloc();
	osc_message_u_setAddress(r, m.a.c_str());
	for(auto &v : m.v) addV(r, v);
	return r;
}
static inline t_osc_bndl_u *mkB(const Bndl &b){
	t_osc_bndl_u *r = osc_bundle_u_alloc();
	for(auto &m : b.m) osc_bundle_u_addMsg(r, mkM(m));
	return r;
}
static inline Bndl rdB(t_osc_bndl_u *b);
static inline Val rdV(t_osc_atom_u *a){
	Val v; v.t = osc_atom_u_getTypetag(a);
	switch(v.t){
	case 'c': v.i = osc_atom_u_getInt8(a); break;
	case 'C': v.i = osc_atom_u_getUInt8(a); break;
	case 'u': v.i = osc_atom_u_getInt16(a); break;
	case 'U': v.i = osc_atom_u_getUInt16(a); break;
	case 'i': v.i = osc_atom_u_getInt32(a); break;
	case 'I': v.i = osc_atom_u_getUInt32(a); break;
	case 'h': v.i = osc_atom_u_getInt64(a); break;
	case 'H': v.i = (int64_t)osc_atom_u_getUInt64(a); break;
	case 'f': v.d = osc_atom_u_getFloat(a); break;
	case 'd': v.d = osc_atom_u_getDouble(a); break;
	case 's': v.s = osc_atom_u_getStringPtr(a); break;
	case 'b': { char *p = osc_atom_u_getBlob(a); int32_t l = osc_atom_u_getBlobLen(a); if(!p || l < 0) vc::fail("blob cell without blob"); v.s.assign(p + 4, l); break; }
	case 't': v.i = rdtt(osc_atom_u_getTimetag(a)); break;
	case '.': v.b = std::make_shared<Bndl>(rdB(osc_atom_u_getBndl(a))); break;
	}
	return v;
}
static inline Msg rdM(t_osc_msg_u *m){
	Msg r; char *a = osc_message_u_getAddress(m); if(a) r.a = a;
	t_osc_msg_it_u *it = osc_msg_it_u_get(m);
	while(osc_msg_it_u_hasNext(it)) r.v.push_back(rdV(osc_msg_it_u_next(it)));
	osc_msg_it_u_destroy(it);
	if((int)r.v.size() != osc_message_u_getArgCount(m)) vc::fail("argument count %d but iteration yields %zu", osc_message_u_getArgCount(m), r.v.size());
	return r;
}
static inline Bndl rdB(t_osc_bndl_u *b){
	Bndl r; if(!b) vc::fail("NULL bundle");
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
	while(osc_bndl_it_u_hasNext(it)) r.m.push_back(rdM(osc_bndl_it_u_next(it)));
	osc_bndl_it_u_destroy(it);
	if((int)r.m.size() != osc_bundle_u_getMsgCount(b)) vc::fail("message count %d but iteration yields %zu", osc_bundle_u_getMsgCount(b), r.m.size());
	return r;
}
static inline Bndl rdBs(long len, char *p);
static inline Val rdVs(t_osc_atom_s *a){
	Val v; v.t = osc_atom_s_getTypetag(a);
	switch(v.t){
	case 'c': v.i = osc_atom_s_getInt8(a); break;
	case 'C': v.i = osc_atom_s_getUInt8(a); break;
	case 'u': v.i = osc_atom_s_getInt16(a); break;
	case 'U': v.i = osc_atom_s_getUInt16(a); break;
	case 'i': v.i = osc_atom_s_getInt32(a); break;
	case 'I': v.i = osc_atom_s_getUInt32(a); break;
	case 'h': v.i = osc_atom_s_getInt64(a); break;
	case 'H': v.i = (int64_t)osc_atom_s_getUInt64(a); break;
	case 'f': v.d = osc_atom_s_getFloat(a); break;
	case 'd': v.d = osc_atom_s_getDouble(a); break;
	case 's': { char *s = NULL; osc_atom_s_getString(a, 0, &s); v.s = s; osc_mem_free(s); break; }
	case 'b': { char *p = osc_atom_s_getBlob(a); int32_t l = osc_atom_s_getBlobLen(a); if(!p || l < 0) vc::fail("blob without data"); v.s.assign(p + 4, l); break; }
	case 't': v.i = rdtt(osc_atom_s_getTimetag(a)); break;
	case '.': { t_osc_bndl_s *b = osc_atom_s_getBndl(a); v.b = std::make_shared<Bndl>(rdBs(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b))); osc_bundle_s_free(b); break; }
	}
	return v;
}
static inline Msg rdMs(t_osc_msg_s *m){
	Msg r; char *a = osc_message_s_getAddress(m); if(a) r.a = a;
	t_osc_msg_it_s *it = osc_msg_it_s_get(m);
	while(osc_msg_it_s_hasNext(it)) r.v.push_back(rdVs(osc_msg_it_s_next(it)));
	osc_msg_it_s_destroy(it);
	return r;
}
static inline Bndl rdBs(long len, char *p){
	Bndl r; r.tt = rdtt(osc_bundle_s_getTimetag(len, p));
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(len, p);
	while(osc_bndl_it_s_hasNext(it)) r.m.push_back(rdMs(osc_bndl_it_s_next(it)));
	osc_bndl_it_s_destroy(it);
	return r;
}
// an exactly sized heap block (ASan red zones on both sides)
struct Buf {
	char *p; size_t n;
	Buf(size_t n_, int fill = 0x5b) : p((char *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n_ ? n_ : 1); }
	Buf(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), s.size()); }
	~Buf(){ free(p); }
	std::string s() const { return std::string(p, n); }
	Buf(const Buf &) = delete;
};
// ------------------------------------------------------------- value alphabets
static inline std::vector<Val> valsOf(char t, int rich){
	std::vector<Val> r;
	auto I = [&](std::initializer_list<int64_t> l){ for(auto x : l) r.push_back(vi(t, x)); };
	switch(t){
	case 'N': case 'T': case 'F': r.push_back(vt(t)); break;
	case 'c': rich ? I({0, 1, -1, 127, -128, 5}) : I({-1, 127}); break;
	case 'C': rich ? I({0, 1, 255, 128, 127}) : I({255, 1}); break;
	case 'u': rich ? I({0, 1, -1, 32767, -32768, 256, 0x1234}) : I({-1, 0x1234}); break;
	case 'U': rich ? I({0, 1, 65535, 32768, 0x1234}) : I({65535, 0x1234}); break;
	case 'i': rich ? I({0, 1, -1, INT32_MAX, INT32_MIN, 0x12345678, 65536}) : I({-1, 0x12345678}); break;
	case 'I': rich ? I({0, 1, 0xffffffffll, 0x80000000ll, 0x12345678}) : I({0xffffffffll, 0x12345678}); break;
	case 'h': rich ? I({0, 1, -1, INT64_MAX, INT64_MIN, 0x123456789abcdef0ll, -2147483649ll, 4294967296ll}) : I({-1, 0x123456789abcdef0ll}); break;
	case 'H': rich ? I({0, 1, -1, INT64_MIN, 0x123456789abcdef0ll}) : I({-1, 0x123456789abcdef0ll}); break;
	case 'f': for(double x : rich ? std::vector<double>{0., -0., 1.5, -1., FLT_MAX, FLT_MIN, 1e-45, INFINITY, -INFINITY, NAN, 0.1} : std::vector<double>{1.5, -0.1}) r.push_back(vd('f', x)); break;
	case 'd': for(double x : rich ? std::vector<double>{0., -0., 1.5, -1., DBL_MAX, DBL_MIN, 5e-324, INFINITY, -INFINITY, NAN, 0.1, 1e100} : std::vector<double>{1.5, -0.1}) r.push_back(vd('d', x)); break;
	case 's': for(auto x : rich ? std::vector<std::string>{"", "a", "ab", "abc", "abcd", "abcde", "\xff\x80", " \"\\"} : std::vector<std::string>{"", "ab", "abcd"}) r.push_back(vs(x)); break;
	case 'b': { const char z[] = "\0\1\xff\0\0\5\6"; for(int n : rich ? std::vector<int>{0, 1, 2, 3, 4, 5, 7} : std::vector<int>{0, 3, 4}) r.push_back(vblob(std::string(z, n))); break; }
	case 't': rich ? I({0, 1, 0x0123456789abcdefll, -1}) : I({0x0123456789abcdefll}); break;
	}
	return r;
}
static const char ALLT[] = "NTFcCuUiIhHfdsbt";
