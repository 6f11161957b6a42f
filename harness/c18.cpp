// C18: the text form of a bundle parses back to the same bundle
#include "spaces.hpp"
#include "text.hpp"
const char *PROP = "C18";
static int LS(){ return vc::tier ? 5 : 4; }
std::string bounds(){ return spaceDesc(vc::tier + 1) + growDesc(vc::tier ? 500 : 200) + vc::fmt(" (values with a text form); all strings of up to %d characters over 12 characters including every metacharacter, and every byte; int32, int64, double boundary values and every decimal of up to 3 digits times 10^-20..20; all argument lists of up to %d values over 10; all message and nesting shapes of up to %d nodes", LS(), vc::tier ? 5 : 4, vc::tier ? 7 : 6); }
void warmup(){}
// what a value is after printing and parsing; false when it has no parseable text
static bool back(const Val &v, Val &w){
	switch(v.t){
	case 'T': case 'F': case 'N': case 's': case 'i': w = v; return true;
	case 'c': case 'C': w = vi('c', (int8_t)v.i); return (char)v.i != 0 && (char)v.i != '\n';
	case 'u': case 'U': w = vi('i', v.i); return true;
	case 'I': case 'h': case 'H': w = intVal(v.t == 'H' ? vc::fmt("%llu", (unsigned long long)v.i) : vc::fmt("%lld", (long long)v.i)); return true;
	case 'd': case 'f': { double d = v.t == 'f' ? (float)v.d : v.d; if(!std::isfinite(d)) return false; w = vd('d', strtod(vc::fmt("%g", d).c_str(), NULL)); return true; }
	case '.': { Bndl b; for(auto &m : v.b->m){ Msg x; x.a = m.a; for(auto &y : m.v){ Val z; if(!back(y, z)) return false; x.v.push_back(z); } b.m.push_back(x); } w = vb(b); return true; }
	}
	return false;
}
static uint64_t trips;
static void trip(const Bndl &b){
	if(b.m.empty()) return; Val w; if(!back(vb(b), w)) return; const Bndl &want = *w.b; trips++;
	t_osc_bndl_u *u = mkB(b); Buf e(enc(b)); char *t = osc_bundle_u_format(u), *ts = osc_bundle_s_format(e.n, e.p); vc::trans(2);
	CHECK(t && ts && !strcmp(t, ts), "in memory prints %s, encoded prints %s", vc::q(t).c_str(), vc::q(ts).c_str());
	std::string text = t; t_osc_bndl_u *p = NULL; t_osc_err err = osc_parser_parseString(text.size(), t, &p); vc::trans();
	CHECK(err == OSC_ERR_NONE && p, "%s prints %s, which does not parse", str(b).c_str(), vc::q(text).c_str());
	Bndl g = rdB(p); CHECK(eq(g, want), "%s prints %s, which parses as %s", str(b).c_str(), vc::q(text).c_str(), str(g).c_str());
	char *t2 = osc_bundle_u_format(p); vc::trans(); CHECK(text == t2, "%s prints %s, and after parsing %s", str(b).c_str(), vc::q(text).c_str(), vc::q(t2).c_str());
	t_osc_bndl_s *s = osc_bundle_u_serialize(p); CHECK(s, "does not encode"); std::string es(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s)); vc::trans(); CHECK(es.substr(16) == enc(want).substr(16), "%s: parsed text encodes as %s, want %s", vc::q(text).c_str(), vc::hex(es.data(), es.size()).c_str(), vc::q(enc(want)).c_str());
	osc_bundle_s_deepFree(s); osc_mem_free(t); osc_mem_free(t2); osc_mem_free(ts); osc_bundle_u_free(u); osc_bundle_u_free(p); vc::state(text);
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static void done(){ vc::count("round trips", trips); trips = 0; }
static Bndl one(std::vector<Val> v, const char *a = "/a"){ Bndl b; b.m.push_back(Msg{a, v}); return b; }
static void strs(const std::string &s){ trip(one({vs(s)})); trip(one({vi('i', 1), vs(s), vs("\"")})); Bndl b = one({vb(one({vs(s)}))}); b.m.push_back(Msg{"/b", {}}); trip(b); }
void explore(){
	forBundles(vc::tier + 1, [](const Bndl &b){ Val w; if(b.m.empty() || !back(vb(b), w)) return; for(auto &m : b.m) if(m.a.back() == ',' || m.a == "/") return; CASE(str(b), { trip(b); done(); }); });
	forGrowing(vc::tier ? 500 : 200, [](int kind, int n, const Bndl &b){ if(kind == 1) return; CASE(growName(kind, n), { trip(b); if(n && kind == 0) for(char c : {'"', '\\', '\'', ' ', '\n', '\t', '\xe9'}) strs(std::string(n, c)); done(); }); });
	static const char al[] = "a\"\\'/:,{}[ \n"; int N = strlen(al);
	for(int a = 0; a < N; a++) CASE("strings " + vc::q(std::string(1, al[a])) + "...", { std::string s(1, al[a]); std::function<void()> r = [&]{ strs(s); if((int)s.size() == LS()) return; for(int k = 0; k < N; k++){ s += al[k]; r(); s.pop_back(); } }; r(); done(); });
	CASE("every byte", { for(int c = 1; c < 256; c++){ for(const char *f : {"%c", "x%c", "%cx", "\"%c", "\\%c", "%c\"", "%c\\"}) strs(vc::fmt(f, c)); if(c != '\n'){ trip(one({vi('c', (int8_t)c)})); trip(one({vi('c', (int8_t)c), vi('C', c)})); } if(c > 32 && c != '#' && c != ','){ std::string ad = "/x" + std::string(1, c); trip(one({vi('i', 1)}, ad.c_str())); trip(one({}, ad.c_str())); Bndl b = one({}, ad.c_str()); b.m.push_back(Msg{"/y", {}}); trip(b); trip(one({vb(b)})); } } done(); });
	CASE("integers", { for(int k = 0; k < 63; k++) for(int d = -2; d <= 2; d++) for(int s = -1; s <= 1; s += 2){ int64_t x = s * ((int64_t)((1ull << k) + d)); trip(one({vi('h', x)})); if(x >= INT32_MIN && x <= INT32_MAX) trip(one({vi('i', x)})); trip(one({vi('H', x)})); } trip(one({vi('h', INT64_MIN)})); trip(one({vi('h', INT64_MAX)})); for(int x = -70000; x <= 70000; x += vc::tier ? 1 : 7) trip(one({vi('i', x)})); done(); });
	CASE("decimals", { for(int m = 0; m < 1000; m += vc::tier ? 1 : 3) for(int e = -20; e <= 20; e++) for(int s = -1; s <= 1; s += 2){ double d = strtod(vc::fmt("%de%d", s * m, e).c_str(), NULL); if(m == 0 && s < 0) d = -0.; trip(one({vd('d', d)})); Val w; CHECK(back(vd('d', d), w) && w.d == d, "%g", d); } for(double d : {123456., 999999., 1000000., 1e300, 1e-300, 0.123456, 100000., 5e-324, 1.79769e308, 12345.6}) trip(one({vd('d', d), vd('d', -d)})); done(); });
	Bndl sub = one({vi('i', 1), vs("x")}, "/s"); std::vector<Val> vals = {vi('i', -5), vd('d', 2.5), vs(""), vs("a\"b"), vt('T'), vt('F'), vt('N'), vb(Bndl()), vb(sub), vd('d', 3.)};
	int L = vc::tier ? 5 : 4;
	for(size_t a = 0; a < vals.size(); a++) CASE("argument lists starting with " + str(vals[a]), { std::vector<Val> v{vals[a]}; std::function<void()> r = [&]{ trip(one(v)); if((int)v.size() == L) return; for(auto &x : vals){ v.push_back(x); r(); v.pop_back(); } }; r(); done(); });
	// message/nesting shapes: a bundle is a list of messages, a message is a list of leaves or bundles
	int B = vc::tier ? 7 : 6;
	// enumerate all bundles of exactly n nodes (node = message, leaf or nested bundle)
	std::function<std::vector<Bndl>(int)> allB; std::function<std::vector<std::vector<Val>>(int)> allV;
	std::map<int, std::vector<Bndl>> mb; std::map<int, std::vector<std::vector<Val>>> mv;
	allV = [&](int n){ if(mv.count(n)) return mv[n]; std::vector<std::vector<Val>> o; if(n == 0) o.push_back({}); else { for(auto &r : allV(n - 1)){ auto x = r; x.insert(x.begin(), vs("q")); o.push_back(x); } for(int k = 0; k < n; k++) for(auto &b : allB(k)) for(auto &r : allV(n - 1 - k)){ auto x = r; x.insert(x.begin(), vb(b)); o.push_back(x); } } return mv[n] = o; };
	allB = [&](int n){ if(mb.count(n)) return mb[n]; std::vector<Bndl> o; if(n == 0) o.push_back(Bndl()); else for(int k = 0; k < n; k++) for(auto &v : allV(k)) for(auto &r : allB(n - 1 - k)){ Bndl x = r; x.m.insert(x.m.begin(), Msg{vc::fmt("/m%d", n), v}); o.push_back(x); } return mb[n] = o; };
	for(int n = 1; n <= B; n++){ auto all = allB(n); size_t step = 500; for(size_t k = 0; k < all.size(); k += step) CASE(vc::fmt("shapes of %d nodes, %zu...", n, k), { for(size_t j = k; j < std::min(all.size(), k + step); j++) trip(all[j]); done(); }); }

}
