// C29: quoting and number-format helpers
#include "text.hpp"
extern "C" { int osc_strfmt_addQuotes(int len, char *buf, char **out); }
const char *PROP = "C29";
static int L(){ return vc::tier ? 7 : 5; }
std::string bounds(){ return vc::fmt("all strings of up to %d characters over {quote, backslash, a, space, comma, bracket, newline, byte 0xc3}, and lengths to 600, blobs to 600 bytes; every buffer size 0..length+3 in exactly sized heap blocks; quoted texts parsed by the bundle text parser; number helpers over all boundary values and all 8-bit and 16-bit values into every buffer size", L()); }
void warmup(){}
typedef std::function<long(char *, long)> PF;
static void sizes(const char *what, const std::string &want, const PF &f){
	long n0 = f(NULL, 0); CHECK(n0 == (long)want.size(), "%s announces %ld, the text is %s", what, n0, vc::q(want).c_str());
	for(long n = 0; n <= (long)want.size() + 3; n++){ Buf b(n); long r = f(b.p, n); vc::trans(); CHECK(r == (long)want.size(), "%s into %ld bytes returns %ld, want %zu", what, n, r, want.size()); long c = std::min<long>(n - 1, want.size()); if(n) CHECK(!memcmp(b.p, want.data(), c) && !b.p[c], "%s into %ld bytes gives %s, want the start of %s", what, n, vc::q(std::string(b.p, n)).c_str(), vc::q(want).c_str()); }
}
static void one(const std::string &s){
	Buf z(s + std::string(1, 0)); std::string q = quoteText(s), m = q.substr(1, q.size() - 2);
	int meta = 0; for(char c : s) meta += c == '"' || c == '\\'; vc::state(s);
	CHECK(osc_strfmt_countMeta(s.size(), z.p) == meta, "%d metacharacters counted, there are %d", osc_strfmt_countMeta(s.size(), z.p), meta);
	sizes("quotedString", "\"" + s + "\"", [&](char *p, long n){ return osc_strfmt_quotedString(p, n, z.p); });
	sizes("stringWithQuotedMeta", m, [&](char *p, long n){ return osc_strfmt_stringWithQuotedMeta(p, n, z.p); });
	sizes("quotedStringWithQuotedMeta", q, [&](char *p, long n){ return osc_strfmt_quotedStringWithQuotedMeta(p, n, z.p); });
	Buf raw(s);
	{ char *o = NULL; int r = osc_strfmt_addQuotesAndQuoteMeta(s.size(), raw.p, &o); CHECK(o && q == o && r == (int)q.size(), "addQuotesAndQuoteMeta gives %s (%d), want %s", o ? vc::q(o).c_str() : "NULL", r, vc::q(q).c_str()); osc_mem_free(o); Buf b(q.size() + 1); o = b.p; osc_strfmt_addQuotesAndQuoteMeta(s.size(), raw.p, &o); CHECK(o == b.p && q == o, "addQuotesAndQuoteMeta into a caller's buffer"); vc::trans(2); }
	{ std::string w = (s[0] == '"' ? "" : "\"") + s + (s.size() && s.back() == '"' ? "" : "\""); char *o = NULL; int r = osc_strfmt_addQuotes(s.size(), raw.p, &o); CHECK(o && w == o && r == (int)w.size(), "addQuotes gives %s (%d), want %s", o ? vc::q(o).c_str() : "NULL", r, vc::q(w).c_str()); osc_mem_free(o); vc::trans(); }
	CHECK(osc_strfmt_strlenPadded(z.p) == (int)((s.size() + 4) & ~3u) && osc_util_getPaddedStringLen(z.p) == ((s.size() + 4) & ~3u), "padded length");
	{ char *d = NULL; int r = osc_util_strdup(&d, z.p); CHECK(r == (int)s.size() && s == d, "strdup"); osc_mem_free(d); Buf b(s.size() + 1); d = b.p; r = osc_util_strdup(&d, z.p); CHECK(d == b.p && r == (int)s.size() && s == d, "strdup into a buffer"); vc::trans(2); }
	Buf t("/a : " + q + std::string(1, 0)); t_osc_bndl_u *b = NULL; t_osc_err e = osc_parser_parseString(t.n - 1, t.p, &b); vc::trans(); CHECK(e == OSC_ERR_NONE && b, "%s does not parse", vc::q(t.p).c_str()); Bndl g = rdB(b), w; w.m.push_back(Msg{"/a", {vs(s)}}); CHECK(eq(g, w), "%s parses as %s", vc::q(t.p).c_str(), str(g).c_str()); osc_bundle_u_free(b);
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static void num(const Val &v, const PF &f){ sizes("number", txt(v), f); vc::state(txt(v)); }
void explore(){
	static const char al[] = "\"\\a ,]\n\xc3"; std::string cur; std::vector<std::string> all;
	std::function<void()> rec = [&]{ all.push_back(cur); if((int)cur.size() == L()) return; for(const char *c = al; *c; c++){ cur += *c; rec(); cur.pop_back(); } }; rec();
	for(int n = 8; n < 600; n++) if(n < 70 || vc::look(n)) for(int k = 0; k < 4; k++){ std::string s; for(int j = 0; j < n; j++) s += k == 0 ? 'x' : k == 1 ? '"' : j % 3 == k - 2 ? '\\' : 'b'; all.push_back(s); }
	for(size_t i = 0; i < all.size(); i += 64) CASE(vc::fmt("strings from %s", vc::q(all[i]).c_str()), { for(size_t j = i; j < all.size() && j < i + 64; j++) try{ one(all[j]); }catch(vc::Fail &f){ vc::fail("%s: %s", vc::q(all[j]).c_str(), f.msg.c_str()); } });
	CASE("metacharacters", { for(int c = 1; c < 256; c++) CHECK(osc_strfmt_isMeta(c) == (c == '"' || c == '\\'), "character %d", c); });
	CASE("NULL strings", { Buf b(8); CHECK(osc_strfmt_quotedString(b.p, 8, NULL) == 0 && osc_strfmt_stringWithQuotedMeta(b.p, 8, NULL) == 0 && osc_strfmt_quotedStringWithQuotedMeta(b.p, 8, NULL) == 0, "NULL string"); char *o = NULL; CHECK(osc_strfmt_addQuotesAndQuoteMeta(0, NULL, &o) == 0 && !o, "NULL string"); });
	CASE("padding", { for(size_t n = 0; n < 300; n++){ CHECK(osc_util_getPaddingForNBytes(n) == (n / 4 + 1) * 4, "padding for %zu", n); CHECK(osc_util_getBlobLength(n) == 4 + (n + 3) / 4 * 4, "blob length for %zu", n); } });
	CASE("8-bit numbers", { for(int i = -128; i < 256; i++) if((char)i){ if(i < 128) num(vi('c', i), [&](char *p, long n){ return osc_strfmt_int8(p, n, i); }); if(i >= 0) num(vi('C', i), [&](char *p, long n){ return osc_strfmt_uint8(p, n, i); }); } });
	for(int base = -32768; base < 65536; base += 1024) CASE(vc::fmt("16-bit numbers from %d", base), { for(int i = base; i < base + 1024; i++){ if(i < 32768) num(vi('u', i), [&](char *p, long n){ return osc_strfmt_int16(p, n, i); }); if(i >= 0) num(vi('U', i), [&](char *p, long n){ return osc_strfmt_uint16(p, n, i); }); } });
	CASE("wide numbers", { std::vector<int64_t> b; for(int k = 0; k < 64; k++) for(int d = -1; d < 2; d++){ b.push_back((1ull << k) + d); b.push_back(-(int64_t)(1ull << k) + d); } int64_t t = 1; for(int k = 0; k < 19; k++, t *= 10) for(int d = -1; d < 2; d++){ b.push_back(t + d); b.push_back(-t + d); }
		for(int64_t x : b){ num(vi('i', (int32_t)x), [&](char *p, long n){ return osc_strfmt_int32(p, n, (int32_t)x); }); num(vi('I', (uint32_t)x), [&](char *p, long n){ return osc_strfmt_uint32(p, n, (uint32_t)x); }); num(vi('h', x), [&](char *p, long n){ return osc_strfmt_int64(p, n, x); }); num(vi('H', x), [&](char *p, long n){ return osc_strfmt_uint64(p, n, (uint64_t)x); }); } });
	CASE("decimals", { std::vector<double> b = {0., -0., INFINITY, -INFINITY, NAN, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, FLT_MAX, 999999., 1000000., 999999.5, 1000001., -999999., -1000000., 123456.75, 1e100, 1e-5, 1e-4}; for(int k = -60; k < 60; k++) for(double m : {1., 1.5, 1.1}) b.push_back(std::ldexp(m, k)), b.push_back(-std::ldexp(m, k)); for(int k = -20; k < 20; k++) b.push_back(std::pow(10., k));
		for(double x : b){ num(vd('d', x), [&](char *p, long n){ return osc_strfmt_float64(p, n, x); }); num(vd('f', (float)x), [&](char *p, long n){ return osc_strfmt_float32(p, n, (float)x); }); } });
	CASE("constants and blobs", { sizes("true", "true", [](char *p, long n){ return osc_strfmt_bool(p, n, 'T'); }); sizes("false", "false", [](char *p, long n){ return osc_strfmt_bool(p, n, 'F'); }); sizes("nil", "nil", [](char *p, long n){ return osc_strfmt_null(p, n); });
		for(auto &v : valsOf('b', 1)){ Buf b(blobbytes(v.s)); sizes("blob", txt(v), [&](char *p, long n){ return osc_strfmt_blob(p, n, b.p); }); } for(int n = 8; n < 600; n++){ if(!vc::look(n)) continue; Val v = vblob(std::string(n, (char)(n * 7))); Buf b(blobbytes(v.s)); sizes("blob", txt(v), [&](char *p, long n){ return osc_strfmt_blob(p, n, b.p); }); }
		for(auto &v : valsOf('t', 1)) sizes("timetag", txt(v), [&](char *p, long n){ return osc_strfmt_timetag(p, n, mktt(v.i)); }); });
}
