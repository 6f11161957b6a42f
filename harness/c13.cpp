// C13: every pattern/address pair over small alphabets against an independent matcher
#include "ref.hpp"
#include "match.hpp"
const char *PROP = "C13";
static const char PA[] = "/ab?*[]!-{},", AA[] = "/ab*-]";
static int PL(){ return vc::tier ? 6 : 5; }
static int AL(){ return vc::tier ? 4 : 3; }
static const char *ITEM[] = {"a", "?", "*", "[ab]", "[!a]", "[a-b]", "[!a-b]", "[]a]", "[!]a]", "[-a]", "[a-]", "{a,b}", "{,b}", "{a,ab}", "{ab,b,}", "{}", "/"};
static const int NI = sizeof ITEM / sizeof *ITEM;
std::string bounds(){ return vc::fmt("every pattern of '/' followed by 0..%d characters of \"%s\" times every address of '/' followed by 0..%d characters of \"%s\"; every pattern of 0..%d well-formed items out of %d (sets, ranges, alternatives, wildcards) times every address of 0..%d characters of \"/ab]-\"; all 255 single-byte addresses against sets and ranges; stars against address parts of 1..1100 characters; 1..%d items of every kind followed by one of every kind, lists of up to 120 alternatives, sets of up to 90 characters", PL(), PA, AL(), AA, vc::tier ? 5 : 4, NI, vc::tier ? 6 : 5, vc::tier ? 300 : 140); }
void warmup(){}
struct Adr { std::string s; std::vector<std::string> p; Buf *b; };
static std::vector<Adr> addrs(const char *al, int n){ std::vector<Adr> v; std::string cur = "/"; std::function<void()> rec = [&](){ std::string z = cur; z += '\0'; v.push_back({cur, parts(cur), new Buf(z)}); if((int)cur.size() <= n) for(const char *c = al; *c; c++){ cur += *c; rec(); cur.pop_back(); } }; rec(); return v; }
static void one(const char *pb, const std::string &pat, const Pat &pp, const Adr &a){
	MRes w = refMatch(pp, a.p); int po = -7, ao = -7;
	int r = osc_match(pb, (char *)a.b->p, &po, &ao); vc::trans();
	if(w.mayerr || w.either){ if(r == 0 || r >= 0x100){ CHECK(po == 0 && ao == 0, "pattern %s address %s: result %#x with offsets %d,%d", vc::q(pat).c_str(), vc::q(a.s).c_str(), r, po, ao); return; } }
	if(w.mayerr) vc::fail("ill-formed pattern %s matches address %s (%#x)", vc::q(pat).c_str(), vc::q(a.s).c_str(), r);
	CHECK(r == w.r, "pattern %s address %s: result %#x, want %#x", vc::q(pat).c_str(), vc::q(a.s).c_str(), r, w.r);
	CHECK(po == w.po && ao == w.ao, "pattern %s address %s: result %d with lengths %d,%d, want %d,%d", vc::q(pat).c_str(), vc::q(a.s).c_str(), r, po, ao, w.po, w.ao);
}
static void against(const std::string &pat, const std::vector<Adr> &A){
	std::string z = pat; z += '\0'; Buf b(z); Pat pp = parsePat(pat); bool ok = true; for(auto &x : pp.p) ok &= !x.bad && !x.lenient;
	vc::state(pat); vc::count(ok ? "well-formed patterns" : "ill-formed patterns");
	for(auto &a : A) one((char *)b.p, pat, pp, a);
}
void explore(){
	auto A1 = addrs(AA, AL()), A2 = addrs("/ab]-", vc::tier ? 6 : 5);
	std::string pre;
	CASE("short patterns", { against("/", A1); for(const char *c = PA; *c; c++) against(std::string("/") + *c, A1); });
	for(const char *c = PA; *c; c++) for(const char *d = PA; *d; d++){
		std::string cur = std::string("/") + *c + *d;
		std::function<void()> rec = [&](){ against(cur, A1); if((int)cur.size() <= PL()) for(const char *e = PA; *e; e++){ cur += *e; rec(); cur.pop_back(); } };
		for(const char *e = PA; *e; e++){ if(e == PA) CASE(cur, { against(cur, A1); }); CASE(cur + *e + "...", { cur += *e; rec(); cur.pop_back(); }); }
	}
	int K = vc::tier ? 5 : 4;
	for(int x = 0; x < NI; x++) for(int y = 0; y < NI; y++) CASE(vc::fmt("items /%s%s...", ITEM[x], ITEM[y]), {
		std::string cur = std::string("/") + ITEM[x]; int n = 2; if(y == 0) against(cur, A2); cur += ITEM[y];
		std::function<void()> rec = [&](){ against(cur, A2); if(n < K) for(int k = 0; k < NI; k++){ size_t s = cur.size(); cur += ITEM[k]; n++; rec(); n--; cur.resize(s); } }; rec(); });
	CASE("no leading slash", { for(const char *p : {"", "a", "*", "a/b"}) for(const char *a : {"", "a", "/a", "/"}){ int po = 5, ao = 5; int r = osc_match(p, a, &po, &ao); CHECK(r == OSC_MATCH_ERROR_PATTERN_NO_LEADING_SLASH && po == 0 && ao == 0, "pattern %s gives %#x", p, r); po = ao = 5; r = osc_match("/a", "a", &po, &ao); CHECK(r == OSC_MATCH_ERROR_ADDRESS_NO_LEADING_SLASH && po == 0 && ao == 0, "address a gives %#x", r); vc::trans(2); } });
	static const char *SETS[] = {"/[a-z]", "/[!a-z]", "/[A-Za-z0-9_]", "/[!A-Z]x", "/?", "/[a-]", "/[-z]", "/[\x80-\xff]", "/[!\x80-\xff]", "/[ -~]", "/{\xc3\xa9,b}", "/[+--]", "/*\xc3*"};
	for(const char *s : SETS) CASE(vc::fmt("bytes %s", vc::q(s).c_str()), { Pat pp = parsePat(s); bool hi = false; for(const char *c = s; *c; c++) hi |= *c & 0x80; for(int c = 1; c < 256; c++){ if(c == '/') continue; if(hi) vc::count("high bytes in sets"); for(const char *t : {"", "x", "/y"}){ std::string a = std::string("/") + (char)c + t, z = a; z += '\0'; Buf b(z); Adr x{a, parts(a), &b}; one(s, s, pp, x); } } });
	// long patterns: n items of one kind, alone and followed by another, against addresses that fit, miss in one place, are shorter, longer or continued
	static const struct { const char *p, *a; } KIND[] = {{"a", "a"}, {"?", "x"}, {"[ab]", "b"}, {"[!a]", "c"}, {"[a-m]", "k"}, {"{ab,c}", "ab"}, {"{,a}", "a"}, {"x/", "x/"}, {"?/", "y/"}, {"*/", "zz/"}, {"{q,rs}/", "rs/"}};
	for(auto &k : KIND) for(auto &t : KIND) CASE(vc::fmt("many %s then %s", k.p, t.p), {
		for(int n = 1; n <= (vc::tier ? 300 : 140); n++){ if(!vc::look(n)) continue; if(k.p[0] == '{' && n > 20) continue; std::string p = "/", a = "/"; for(int i = 0; i < n; i++) p += k.p, a += k.a; p += t.p; a += t.a;
			std::vector<Adr> v; std::vector<std::unique_ptr<Buf>> own; auto add = [&](const std::string &s){ if(s.empty() || s[0] != '/') return; own.emplace_back(new Buf(s + std::string(1, 0))); v.push_back({s, parts(s), own.back().get()}); };
			add(a); add(a + "/y"); add(a + "y"); for(size_t c : {a.size() / 2, a.size() - 1, (size_t)1}) if(c < a.size()){ std::string s = a; s[c] = s[c] == '/' ? 'N' : '~'; add(s); add(a.substr(0, c)); }
			std::string z = p; z += '\0'; Buf b(z); Pat pp = parsePat(p); for(auto &x : v) one((char *)b.p, p, pp, x); vc::state(p); } });
	// long lists and sets
	CASE("long lists of alternatives", { for(int n = 1; n <= 120; n++){ if(!vc::look(n)) continue; for(int kind = 0; kind < 3; kind++){ std::string p = "/{"; std::vector<std::string> al; for(int i = 0; i < n; i++){ std::string w = kind == 0 ? vc::fmt("w%d", i) : kind == 1 ? std::string(i + 1, 'a') : std::string(n - i, 'b') + "c"; al.push_back(w); p += (i ? "," : "") + w; } p += "}"; for(const char *tail : {"", "/t"}){ std::string q = p + tail; Pat pp = parsePat(q); Buf b(q + std::string(1, 0));
		for(int i : {0, 1, n / 2, n - 2, n - 1, n, -7}){ if(i < 0 && i != -7) continue; std::string a = "/" + (i == -7 ? std::string() : i < n ? al[i] : std::string("none")) + tail; if(a == "/" || a.find("//") == 0) continue; Buf ab(a + std::string(1, 0)); Adr x{a, parts(a), &ab}; one((char *)b.p, q, pp, x); } vc::state(q); } } } });
	// a list between other characters, without and with an empty alternative, against addresses that have one of its members, none and nothing in its place
	CASE("long lists inside a part", { for(int n = 1; n <= 90; n++){ if(!vc::look(n)) continue; for(int e = 0; e < 4; e++) for(const char *pre : {"", "x", "*", "?"}) for(const char *post : {"", "y", "y/z", "[yz]", "*", "{y,}"}){ std::string p = std::string("/") + pre + "{"; std::vector<std::string> al; for(int i = 0; i < n; i++){ std::string w = (e == 1 && i == 0) || (e == 2 && i == n - 1) || (e == 3 && i == n / 2) ? "" : vc::fmt("w%d", i); al.push_back(w); p += (i ? "," : "") + w; } p += std::string("}") + post; Pat pp = parsePat(p); Buf b(p + std::string(1, 0));
		for(const std::string &m : {std::string(), al[0], al[n - 1], std::string("no")}) for(const char *l : {"", "x", "q"}) for(const char *t : {"", "y", "y/z"}){ std::string a = std::string("/") + l + m + t; if(a == "/" || a.find("//") == 0 || a == "//") continue; Buf ab(a + std::string(1, 0)); Adr x{a, parts(a), &ab}; one((char *)b.p, p, pp, x); } vc::state(p); } } });
	CASE("long sets", { for(int n = 1; n <= 90; n++) for(int neg = 0; neg < 2; neg++){ std::string p = neg ? "/[!" : "/[", set; for(int i = 0; i < n; i++){ char c = 33 + i; if(strchr("/]!-[", c)) continue; set += c; } if(set.empty()) continue; p += set + "]"; for(const char *tail : {"", "x", "/t"}){ std::string q = p + tail; Pat pp = parsePat(q); Buf b(q + std::string(1, 0)); for(int c = 33; c < 127; c++){ if(c == '/') continue; std::string a = std::string("/") + (char)c + tail; Buf ab(a + std::string(1, 0)); Adr x{a, parts(a), &ab}; one((char *)b.p, q, pp, x); } } vc::state(p); } });
	for(const char *p : {"/*a", "/*", "/a*b*c", "/*[ab]", "/*{b,a}", "/x*", "/*/b"}) CASE(vc::fmt("long address parts against %s", p), { Pat pp = parsePat(p);
		for(int n = 1; n <= 1100; n++){ if(n > 40 && n < 980) n += 7; for(const char *t : {"", "a", "b", "a/b"}){ std::string a = "/" + std::string(n, 'x') + t, z = a; z += '\0'; Buf b(z); auto ap = parts(a); MRes w = refMatch(pp, ap); int po = -1, ao = -1; int r = osc_match(p, (char *)b.p, &po, &ao); vc::trans();
			if(r == OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED){ CHECK(n > 900, "backtrack limit at an address part of %d characters", n); CHECK(po == 0 && ao == 0, "lengths %d,%d with the backtrack error", po, ao); continue; }
			CHECK(r == w.r && po == w.po && ao == w.ao, "address part of %d characters followed by %s: %#x %d,%d want %#x %d,%d", n, t, r, po, ao, w.r, w.po, w.ao); } } });
}
