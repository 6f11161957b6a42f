// C20: the language of the bundle text parser
#include "text.hpp"
const char *PROP = "C20";
static int LT(){ return vc::tier ? 8 : 6; }
static int LC(){ return vc::tier ? 6 : 5; }
std::string bounds(){ return vc::fmt("all sequences of up to %d tokens over {address, ':', ',', '[', ']', '{', '}', value}, with the value kind cycling over every literal form, written with spaces and, up to %d tokens, run together; all texts of up to %d characters over an alphabet of 18 (after a well-formed prefix and alone); all literals of up to %d characters over number characters; 18 constructs (addresses, strings, escapes, white space, numbers, lists, messages, nesting) at every size to %d; every parse compared with a reference lexer and parser, and every block released", LT(), LT() - 1, LC(), vc::tier ? 6 : 5, vc::tier ? 1100 : 400); }
void warmup(){}
static uint64_t okc, badc;
static void check(const std::string &s){
	Bndl w; bool ok = refText(s, w); Buf t(s + std::string(1, 0)); t_osc_bndl_u *b = NULL; t_osc_err e = osc_parser_parseString(s.size(), t.p, &b); vc::trans();
	CHECK(s + std::string(1, 0) == t.s(), "%s: the parser changed its text", vc::q(s).c_str());
	if(ok){ okc++; CHECK(e == OSC_ERR_NONE && b, "%s is rejected, it denotes %s", vc::q(s).c_str(), str(w).c_str()); Bndl g = rdB(b); CHECK(eq(g, w), "%s parses as %s, it denotes %s", vc::q(s).c_str(), str(g).c_str(), str(w).c_str()); osc_bundle_u_free(b); vc::state(txt(w)); }
	else { badc++; CHECK(e != OSC_ERR_NONE && !b, "%s is accepted%s%s", vc::q(s).c_str(), b ? " as " : "", b ? str(rdB(b)).c_str() : ""); }
	CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", vc::q(s).c_str(), vc::live(), vc::live_desc().c_str());
}
static void done(){ vc::count("accepted", okc); vc::count("rejected", badc); okc = badc = 0; }
static const char *VALS[] = {"1", "-20", "2.5", "\"s\"", "\"a\\\"b\\\\\"", "\"\"", "true", "false", "nil", "'c'", "0x1f", "0x123456789a", "2013-01-02T03:04:05.5Z", "-1.e3", "2147483648", "\"/q, : [\""};
static const char *ADDR[] = {"/a", "/b/c", "/d:e"};
void explore(){
	static const char *T[] = {"A", ":", ",", "[", "]", "{", "}", "V"};
	// token sequences: a case per prefix of 3
	std::vector<int> pre; int P = 3;
	std::function<void(std::vector<int> &, int)> rec;
	auto emit = [&](const std::vector<int> &ix){
		for(int tight = 0; tight < (int(ix.size()) < LT() ? 2 : 1); tight++){ std::string s; unsigned h = 7; for(int k : ix) h = h * 31 + k; int n = 0; for(int k : ix){ if(s.size() && (!tight || s.back() == 'a' || s.back() == 'c' || s.back() == 'e' || (T[k][0] == 'V' && tdig(s.back())))) s += tight ? '\n' : ' '; s += k == 7 ? VALS[(h + n++ * 5) % 16] : k == 0 ? ADDR[(h + n++) % 3] : T[k]; } check(s); }
	};
	for(int n = 0; n < P; n++) CASE(vc::fmt("all sequences of %d tokens", n), { std::vector<int> ix(n, 0); std::function<void(int)> r = [&](int d){ if(d == n){ emit(ix); return; } for(int k = 0; k < 8; k++){ ix[d] = k; r(d + 1); } }; r(0); done(); });
	for(int a = 0; a < 8; a++) for(int b = 0; b < 8; b++) for(int c = 0; c < 8; c++) CASE(vc::fmt("token sequences %s%s%s...", T[a], T[b], T[c]), { std::vector<int> ix{a, b, c}; std::function<void()> r = [&]{ emit(ix); if((int)ix.size() == LT()) return; for(int k = 0; k < 8; k++){ ix.push_back(k); r(); ix.pop_back(); } }; r(); done(); });
	// long well-formed skeletons with one token inserted, deleted or replaced
	std::vector<std::string> sk = {"A:[V,V,A],A,A:V,A:{A:V,A:[V,{A:{}}]},A:{}", "A:{A:{A:{A:[V,V]},A}},A:[{},{},V]", "A,A,A,A,A:[A,A,A,A]", "A:[V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V],A"};
	auto wr = [&](const std::string &k){ std::string s; int n = 0; for(char c : k){ s += c == 'V' ? VALS[n++ % 16] : c == 'A' ? ADDR[n++ % 3] : std::string(1, c); s += ' '; } return s; };
	for(auto &k : sk) CASE("edits of " + k, { check(wr(k)); for(size_t i = 0; i <= k.size(); i++){ for(char c : std::string("A:,[]{}V?")){ std::string e = k; e.insert(i, 1, c); check(wr(e)); if(i < k.size()){ e = k; e[i] = c; check(wr(e)); for(size_t j = i + 1; j < k.size(); j++){ std::string f = e; f[j] = c; check(wr(f)); f = e; f.erase(j, 1); check(wr(f)); } } } if(i < k.size()){ std::string e = k; e.erase(i, 1); check(wr(e)); } } done(); });
	// characters
	static const char al[] = "/a: ,[]{}\"\\'1.-\n\xc3#"; int N = sizeof al - 1;
	for(const char *pf : {"", "/a : ", "/a : [1, ", "/a : \"", "/x : {/y : "}) for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) CASE("texts " + vc::q(std::string(pf) + al[a] + al[b]) + "...", {
		std::string s = std::string(pf) + al[a]; if(b == 0) check(s); s += al[b]; size_t lim = strlen(pf) + LC() - (*pf ? 1 : 0); std::function<void()> r = [&]{ check(s); if(s.size() == lim) return; for(int k = 0; k < N; k++){ s += al[k]; r(); s.pop_back(); } }; r(); done(); });
	static const char na[] = "01.-+exFT9:"; int M = sizeof na - 1;
	for(int a = 0; a < M; a++) for(int b = 0; b < M; b++) CASE("literals " + vc::q(std::string(1, na[a]) + na[b]) + "...", { std::string s(1, na[a]); s += na[b]; std::function<void()> r = [&]{ check("/a : " + s); check("/a : [" + s + "]"); if((int)s.size() == LC()) return; for(int k = 0; k < M; k++){ s += na[k]; r(); s.pop_back(); } }; r(); done(); });
	for(const char *m : {"1", "10", "1.", "1.5", ".5", "0x1", "0x1p3", "0x1.8p-2", "0x.8p1", "1e5", "1E+5", "1.e-5", ".5E3", "0", "007", "2147483648", "0x7fffffff", "0x1."}) CASE(std::string("suffixes of ") + m, { for(const char *x : {"", "f", "F", "l", "L", "u", "U", "ul", "uL", "Ul", "lu", "ll", "LL", "lL", "ull", "ULL", "LLu", "fl", "ff", "d", "e", "p1", "_", "x", ".", "..", "e+", "e+1", "E-0", "p", "P+1"}) for(const char *pf : {"", "-", "--", "+", "- "}){ std::string s = std::string(pf) + m + x; check("/k : " + s); check("/k : [" + s + ", 1]"); check("/k : {/j : " + s + "}"); check("/k : [1," + s + "]"); } done(); });
	for(int mo = 0; mo <= 13; mo++) CASE(vc::fmt("dates of month %d", mo), { for(const char *y : {"1900", "1970", "1999", "2000", "2024", "2036"}) for(int d = 0; d <= 33; d++) check(vc::fmt("/k : %s-%02d-%02dT%02d:%02d:%02dZ", y, mo, d, d % 24, d, d)); for(int h = 0; h <= 25; h++) for(int m : {0, 1, 9, 10, 30, 59, 60, 61}) for(int s : {0, 9, 10, 59, 60}){ std::string b = vc::fmt("2001-%02d-03T%02d:%02d:%02d", mo, h, m, s); for(const char *z : {"", "Z", ".5", ".25Z", ".125+05:30", "-23:59", "+24:00", "+2:00", "z", " Z", ".", ".Z"}){ check("/k : " + b + z); } check("/k : [" + b + "Z, " + b + "]"); check("/k : {/j : " + b + "Z}"); } done(); });
	CASE("words and dates", { for(const char *w : {"true", "false", "nil", "True", "TRUE", "tru", "truex", "nill", "'ab'", "'''", "''", "'", "'\n'", "2013-01-02T03:04:05", "2013-01-02T03:04:05Z", "2013-01-02T03:04:05.25+01:00", "2013-13-02T03:04:05Z", "2013-01-32T03:04:05Z", "2013-01-02T24:04:05Z", "2013-01-02T03:60:05Z", "2013-01-02", "2013-01-02T03:04", "1970-01-01T00:00:00-23:59", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "-2147483648", "-2147483649", "4294967295", "0xffffffff", "0x00000000f", "0xffffffffffffffff", "0x", "0xg", "1e400", "1e-400", "\"a\nb\"", "\"a\\\nb\"", "\"a\tb\"", "\"\\n\"", "\"", "\"\\", "\"\\\"", "\"a\\\"", "\"a\"\"b\"", "\"a\" \"b\"", "#", "a", "/", "//", "/#", "/a#", "/a,", "/a,,", "/a:", "/a:1"}) for(const char *f : {"%s", "/k : %s", "/k : [%s, 1]", "/k : {/j : %s }", "%s : 1", "/k, %s"}) check(vc::fmt(f, w)); for(int c = 1; c < 256; c++){ std::string s = "/k : 1"; check(s + (char)c); check("/k : 'x'" + std::string(1, c) + " 2"); check("/k : '" + std::string(1, c) + "'"); check("/k : \"" + std::string(1, c) + "\""); check("/k : \"\\" + std::string(1, c) + "\""); check("/k" + std::string(1, c) + " : 1"); } done(); });
	// every construct at every size
	for(int kind = 0; kind < 18; kind++) CASE(vc::fmt("construct %d of every size", kind), { for(int n = 1; n <= (vc::tier ? 1100 : 400); n++){ if(!vc::look(n)) continue; std::string s; auto rp = [&](const char *f){ std::string r; for(int k = 0; k < n; k++) r += f; return r; };
		switch(kind){
		case 0: s = "/" + std::string(n, 'a') + " : 1"; break; case 1: s = rp("/ab") + " : 1"; break; case 2: s = "/a : \"" + std::string(n, 's') + "\""; break; case 3: s = "/a : \"" + rp("\\\"") + "\""; break; case 4: s = "/a : \"" + rp("\\\\x") + "\", /b : 2"; break;
		case 5: s = "/a" + std::string(n, ' ') + ":" + std::string(n, '\n') + "1" + std::string(n, '\t') + ",\n/b : 2" + std::string(n, ' '); break; case 6: s = "/a : 1." + std::string(n, '0') + "1"; break; case 7: if(n > 300) continue; s = "/a : " + std::string(n, '0') + "7"; break; case 8: s = "/a : [" + rp("1, ") + "2]"; break; case 9: s = "/a : [" + rp("\"s\", 2.5, ") + "/b/c]"; break;
		case 10: s = "/a : [" + rp("{/x : 1}, ") + "{}]"; break; case 11: for(int k = 0; k < n; k++) s += vc::fmt("/m%d : %d, ", k, k); s += "/last"; break; case 12: for(int k = 0; k < n; k++) s += vc::fmt("/m%d, ", k % 5); s += "/last : [1, 2]"; break; case 13: s = rp("/n : {") + rp("}"); break; case 14: s = rp("/n : {/a : [1, 2], /b : ") + "nil" + rp("}"); break;
		case 15: s = rp("/n : [1, {") + rp("}, 2]"); break; case 16: s = "/a : [" + rp("/b/c, ") + "1]"; break; case 17: s = "/a : [" + rp("2013-01-02T03:04:05Z, ") + "'c']"; break; }
		check(s); if(n % 3 == 0){ s.pop_back(); check(s); check(s + ":"); check(s + "]"); check(s + ", "); } } done(); });
	CASE("long texts", { for(int n : {100, 1000, 5000}){ std::string s = "/a : ["; for(int k = 0; k < n; k++) s += vc::fmt("%s%s", k ? ", " : "", VALS[k % 16]); check(s + "]"); check(s); std::string m; for(int k = 0; k < n; k++) m += vc::fmt("%s/m%d : %d", k ? ",\n" : "", k, k); check(m); check(m + ","); check("/s : \"" + std::string(n * 10, 'x') + "\\\"" + std::string(n * 10, 'y') + "\""); } std::string d = "/z : 1"; for(int k = 0; k < 1000; k++) d = "/n : {" + d + " }"; check(d); d.pop_back(); check(d); done(); });
}
