// C14: lookups and queries against the reference matcher, encoded and in memory
#include "ref.hpp"
#include "match.hpp"
extern "C" {
#include "osc_query.h"
#include "osc_rset.h"
}
const char *PROP = "C14";
static const char *ADDR[] = {"/a", "/b", "/a/b", "/a/c", "/ab", "/b/a", "/a/b/c", "/*", "/[ab]/b", "/a/", "/{a,b}"};
static const int NA = sizeof ADDR / sizeof *ADDR;
static const char *PAT[] = {"/a", "/b", "/ab", "/a/b", "/a/b/c", "/a/c/d", "/*", "/a*", "/?", "/*/b", "/*/*", "/*b", "/[ab]", "/[!a]", "/[a-b]*", "/{a,b}", "/{a,b}/*", "/{a,ab}", "/a{,b}", "/x", "/x/*", "/a/[bc]", "/a/b*", "/", "//", "/a/", "/a[", "/[", "/{a", "/a]", "/a}", "/a/[", "a", ""};
static const int NP = sizeof PAT / sizeof *PAT;
static const char *SEL[] = {"/a", "/b", "/a/b", "/ab", "/a/b/c", "/b/a", "/x", "/a/b/c/d", "/"};
static const int NS = sizeof SEL / sizeof *SEL;
std::string bounds(){ return vc::fmt("every bundle of 0..%d messages over %d addresses x 3 argument lists, and bundles of 15..700 messages of up to 200 characters of text, x %d patterns (well formed, ill formed, multi-part) x complete/partial, encoded and in memory; queries: every bundle of 0..%d messages x every list of 1..%d of %d selectors x both address forms; every history of 0..%d additions to a hand-made result set over 4 selectors x complete/partial, unmatched, and restarting the iteration", 3, NA, NP, vc::tier ? 3 : 2, vc::tier ? 3 : 2, NS, vc::tier ? 6 : 4); }
void warmup(){}
static int rm(const std::string &p, const std::string &a){ if(p.empty() || p[0] != '/' || a.empty() || a[0] != '/') return 0; return refMatch(p, a).r; }
static std::string args(int k){ return std::string(k, 'x'); }
static Msg mkmsg(int a, int k, int id){ Msg m{ADDR[a], {}}; if(k > 0) m.v.push_back(vi('i', id)); if(k > 1) m.v.push_back(vs("two")); return m; }
static std::string list(const std::vector<int> &v){ std::string r = "["; for(int x : v) r += vc::fmt(" %d", x); return r + " ]"; }
static void lookups(const Bndl &b){
	std::string e = enc(b); Buf buf(e); t_osc_bndl_s *bs = osc_bundle_s_alloc(buf.n, buf.p); t_osc_bndl_u *bu = mkB(b);
	std::vector<long> off; { long o = 16; for(auto &m : b.m){ off.push_back(o); o += 4 + enc(m).size(); } }
	for(int p = 0; p < NP; p++) for(int full = 0; full < 2; full++){
		std::vector<int> w; bool bound = false; int first = -1, equal = -1;
		for(size_t k = 0; k < b.m.size(); k++){ int r = rm(PAT[p], b.m[k].a); if(full ? r == 3 : r != 0){ w.push_back(k); bound |= !b.m[k].v.empty(); } if(r == 3 && first < 0) first = k; if(b.m[k].a == PAT[p] && equal < 0) equal = k; }
		std::string pz = PAT[p]; pz += '\0'; Buf pb(pz); char *pat = (char *)pb.p;
		auto what = vc::fmt("pattern %s (%s)", vc::q(PAT[p]).c_str(), full ? "complete" : "partial");
		t_osc_msg_ar_s *as = p % 2 ? osc_bundle_s_lookupAddress(buf.n, buf.p, pat, full) : osc_bundle_s_lookupAddress_b(bs, pat, full);
		std::vector<int> g; if(as) for(int k = 0; k < osc_array_getLen(as); k++){ t_osc_msg_s *m = (t_osc_msg_s *)osc_array_get(as, k); long o = osc_message_s_getPtr(m) - (char *)buf.p; int f = std::find(off.begin(), off.end(), o) - off.begin(); CHECK(f < (int)off.size(), "%s: found message at offset %ld of the encoded bundle", what.c_str(), o); Msg gm = rdMs(m); CHECK(eq(gm, b.m[f]), "%s: found %s, want %s", what.c_str(), str(gm).c_str(), str(b.m[f]).c_str()); g.push_back(f); }
		CHECK(g == w, "%s: encoded lookup finds %s, want %s", what.c_str(), list(g).c_str(), list(w).c_str());
		if(as) osc_array_free(as);
		t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(bu, pat, full); CHECK(au, "%s: no answer in memory", what.c_str());
		CHECK(osc_array_getLen(au) == (long)w.size(), "%s: in-memory lookup finds %ld messages, want %s", what.c_str(), osc_array_getLen(au), list(w).c_str());
		for(size_t k = 0; k < w.size(); k++){ Msg gm = rdM((t_osc_msg_u *)osc_array_get(au, k)); CHECK(eq(gm, b.m[w[k]]), "%s: found %s, want %s", what.c_str(), str(gm).c_str(), str(b.m[w[k]]).c_str()); }
		osc_message_array_u_free(au);
		for(int q = 0; q < 4; q++){
			int res = -9; t_osc_err err = q == 0 ? osc_bundle_s_addressExists(buf.n, buf.p, pat, full, &res) : q == 1 ? osc_bundle_u_addressExists(bu, pat, full, &res) : q == 2 ? osc_bundle_s_addressIsBound(buf.n, buf.p, pat, full, &res) : osc_bundle_u_addressIsBound(bu, pat, full, &res);
			int want = q < 2 ? !w.empty() : bound; CHECK(err == OSC_ERR_NONE && (res != 0) == want, "%s: %s %s says %d, want %d", what.c_str(), q % 2 ? "in-memory" : "encoded", q < 2 ? "exists" : "is-bound", res, want);
		}
		char *ff = osc_bundle_s_getFirstFullMatch(buf.n, buf.p, pat); CHECK((ff ? ff - (char *)buf.p : -1) == (first < 0 ? -1 : off[first]), "%s: first complete match in the encoded bundle at %ld, want message %d", what.c_str(), ff ? (long)(ff - (char *)buf.p) : -1l, first);
		char *fe = osc_bundle_s_getFirstEqualAddr(buf.n, buf.p, pat); CHECK((fe ? fe - (char *)buf.p : -1) == (equal < 0 ? -1 : off[equal]), "%s: first equal address at %ld, want message %d", what.c_str(), fe ? (long)(fe - (char *)buf.p) : -1l, equal);
		t_osc_msg_u *fu = osc_bundle_u_getFirstFullMatch(bu, pat); CHECK(!fu == (first < 0), "%s: first complete match in memory %sfound", what.c_str(), fu ? "" : "not ");
		if(fu){ t_osc_bndl_it_u *it = osc_bndl_it_u_get(bu); int pos = -1, k = 0; while(osc_bndl_it_u_hasNext(it)){ if(osc_bndl_it_u_next(it) == fu) pos = k; k++; } osc_bndl_it_u_destroy(it); CHECK(pos == first, "%s: first complete match in memory is message %d, want %d", what.c_str(), pos, first); }
		vc::trans(9); vc::state(what + list(w));
	}
	CHECK(buf.s() == e && eq(rdB(bu), b, false), "the bundle changed");
	osc_bundle_s_free(bs); osc_bundle_u_free(bu);
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static Bndl decS(t_osc_bndl_s *b, const char *w){ Bndl r; if(!b || !osc_bundle_s_getLen(b)) return r; CHECK(dec(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b), r), "%s are not a well-formed bundle", w); CHECK(r.tt == 0, "%s have timetag %llx", w, (unsigned long long)r.tt); return r; }
static void query(const Bndl &b, const std::vector<std::string> &T, const std::vector<int> &sel, int strip){
	std::string e = enc(b); Buf buf(e); std::vector<char *> S; for(int s : sel) S.push_back(s < 0 ? NULL : (char *)T[s].c_str());
	std::map<std::string, std::pair<Bndl, Bndl>> w; std::vector<std::string> order; Bndl un;
	for(auto &m : b.m){ bool any = false; for(int s : sel){ if(s < 0) continue; MRes r = refMatch(m.a, T[s]); bool c = r.r == 3, p = r.r == 1; if(p) p = false, c = false; 
			// the message's address is the pattern: selector exhausted = partial
			bool part = r.r == 1 && m.a[r.po] == '/'; c = r.r == 3;
			if(!c && !part) continue; any = true; if(!w.count(T[s])) order.push_back(T[s]);
			if(c) w[T[s]].first.m.push_back(m); else { Msg x = m; if(strip && m.a.size() - r.po >= 2) x.a = m.a.substr(r.po); w[T[s]].second.m.push_back(x); } }
		if(!any) un.m.push_back(m); }
	t_osc_rset *rs = NULL; CHECK(osc_query_select(S.size(), S.data(), buf.n, buf.p, strip, &rs) == OSC_ERR_NONE && rs, "query failed"); vc::trans();
	Bndl gu = decS(osc_rset_getUnmatched(rs), "the unmatched messages"); CHECK(eq(gu, un, false), "unmatched %s, want %s", str(gu).c_str(), str(un).c_str());
	for(int s = 0; s < (int)T.size(); s++){
		t_osc_rset_result *r = osc_rset_select(rs, (char *)T[s].c_str()); bool have = w.count(T[s]); CHECK(!r == !have, "selector %s: %sresult", T[s].c_str(), r ? "unexpected " : "no "); if(!r) continue;
		Bndl c = decS(osc_rset_result_getCompleteMatches(r), "the complete matches"), p = decS(osc_rset_result_getPartialMatches(r), "the partial matches");
		CHECK(eq(c, w[T[s]].first, false), "selector %s: complete matches %s, want %s", T[s].c_str(), str(c).c_str(), str(w[T[s]].first).c_str());
		CHECK(eq(p, w[T[s]].second, false), "selector %s: partial matches %s, want %s", T[s].c_str(), str(p).c_str(), str(w[T[s]].second).c_str());
		CHECK(!strcmp(osc_rset_result_getSelector(r), T[s].c_str()) && osc_rset_result_getSelectorLen(r) == (int)T[s].size(), "the result for %s calls itself %s", T[s].c_str(), osc_rset_result_getSelector(r));
		vc::trans();
	}
	for(int round = 0; round < 2; round++){ std::vector<std::string> o; osc_rset_initIterator(rs); while(osc_rset_hasNext(rs)){ t_osc_rset_result *r = osc_rset_next(rs); CHECK(r && o.size() <= order.size(), "iterating the results does not end"); o.push_back(osc_rset_result_getSelector(r)); } CHECK(o == order, "iterating the results gives %zu selectors, want %zu (or another order)", o.size(), order.size()); CHECK(!osc_rset_next(rs), "next after the last result"); }
	CHECK(buf.s() == e, "the queried bundle changed");
	osc_rset_free(rs); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static const std::vector<std::string> &sels(){ static std::vector<std::string> v(SEL, SEL + NS); return v; }
static void query(const Bndl &b, const std::vector<int> &sel, int strip){ query(b, sels(), sel, strip); }
// result sets put together by hand: every history of additions, iterated while it grows
struct RS { std::string sel; Bndl c, p; };
static void building(const std::vector<int> &h){
	static const char *S[] = {"/a", "/ab", "/b", "/", ""}; t_osc_rset *rs = osc_rset_alloc(); CHECK(rs, "no result set"); std::vector<RS> w; Bndl un; size_t pos = 0; int id = 0;
	auto look = [&](){
		Bndl gu = decS(osc_rset_getUnmatched(rs), "the unmatched messages"); CHECK(eq(gu, un, false), "unmatched %s, want %s", str(gu).c_str(), str(un).c_str());
		for(const char *s : S){ std::string z = s; z += '\0'; Buf sb(z); RS *x = NULL; for(auto &r : w) if(r.sel == s) x = &r; t_osc_rset_result *r = osc_rset_select(rs, (char *)sb.p); CHECK(!r == !x, "selector %s: %sresult", s, r ? "unexpected " : "no "); if(!r) continue;
			Bndl c = decS(osc_rset_result_getCompleteMatches(r), "the complete matches"), p = decS(osc_rset_result_getPartialMatches(r), "the partial matches"); CHECK(eq(c, x->c, false) && eq(p, x->p, false), "selector %s holds %s and %s, want %s and %s", s, str(c).c_str(), str(p).c_str(), str(x->c).c_str(), str(x->p).c_str());
			CHECK(!strcmp(osc_rset_result_getSelector(r), s) && osc_rset_result_getSelectorLen(r) == (int)strlen(s), "the result for %s calls itself %s", s, osc_rset_result_getSelector(r)); vc::trans(); }
		CHECK(!osc_rset_select(rs, NULL), "a result for no selector"); };
	auto step = [&](){ bool more = pos > 0 && pos <= w.size(); CHECK(!!osc_rset_hasNext(rs) == more, "after %zu of %zu results there is %sanother", pos ? pos - 1 : 0, w.size(), more ? "not " : ""); t_osc_rset_result *r = osc_rset_next(rs); CHECK(!r == !more, "next gives %s result", r ? "a" : "no"); if(r){ CHECK(w[pos - 1].sel == osc_rset_result_getSelector(r), "result %zu is the one for %s, want %s", pos - 1, osc_rset_result_getSelector(r), w[pos - 1].sel.c_str()); if(++pos > w.size()) pos = 0; } };
	look(); step(); /* what is added once the iteration has ended need not be seen by it */
	for(int o : h){ id++; Msg m{ADDR[id % NA], {}}; for(int k = 0; k < id % 3; k++) m.v.push_back(vi('i', id * 10 + k)); std::string e = enc(m); std::string z; for(int k = 0; k < 4; k++) z += char(e.size() >> 8 * (3 - k)); z += e; 
		if(o == 9){ osc_rset_initIterator(rs); pos = w.empty() ? 0 : 1; look(); step(); continue; }
		{ Buf mb(z); t_osc_msg_s *ms = osc_message_s_alloc(); osc_message_s_wrap(ms, (char *)mb.p); int s = o % 4; t_osc_err er;
			if(o == 8){ er = osc_rset_addUnmatched(rs, ms); un.m.push_back(m); } else { std::string sz = S[s]; sz += '\0'; Buf sb(sz); er = o < 4 ? osc_rset_addCompleteMatch(rs, (char *)sb.p, ms) : osc_rset_addPartialMatch(rs, (char *)sb.p, ms); RS *x = NULL; for(auto &r : w) if(r.sel == S[s]) x = &r; if(!x){ w.push_back({S[s], {}, {}}); x = &w.back(); } (o < 4 ? x->c : x->p).m.push_back(m); }
			CHECK(er == OSC_ERR_NONE, "adding fails"); CHECK(mb.s() == z, "adding changed the message"); osc_message_s_free(ms); }
		look(); if(pos) step(); }
	std::vector<std::string> g; osc_rset_initIterator(rs); pos = w.empty() ? 0 : 1; for(size_t k = 0; k <= w.size(); k++) step();
	std::string st; for(auto &r : w) st += r.sel + str(r.c) + str(r.p); vc::state(st + str(un)); osc_rset_free(rs); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	CASE("no result set", { osc_rset_free(NULL); osc_rset_initIterator(NULL); CHECK(!osc_rset_hasNext(NULL) && !osc_rset_next(NULL) && !osc_rset_select(NULL, (char *)"/a") && !osc_rset_getUnmatched(NULL) && !osc_rset_result_getSelector(NULL) && !osc_rset_result_getSelectorLen(NULL) && !osc_rset_result_getCompleteMatches(NULL) && !osc_rset_result_getPartialMatches(NULL), "a NULL result set holds something"); building({}); });
	for(int x = 0; x < 10; x++) for(int y = 0; y < 10; y++) CASE(vc::fmt("building a result set %d %d ...", x, y), {
		std::vector<int> h{x, y}; std::function<void()> go = [&](){ try { building(h); } catch(vc::Fail &f){ std::string s; for(int o : h) s += o == 9 ? "iterate " : o == 8 ? "unmatched " : vc::fmt("%s(%d) ", o < 4 ? "complete" : "partial", o % 4); vc::fail("after %s: %s", s.c_str(), f.msg.c_str()); } if((int)h.size() < (vc::tier ? 6 : 4)) for(int o = 0; o < 10; o++){ h.push_back(o); go(); h.pop_back(); } }; go(); });
	int M = vc::tier ? 3 : 2, N = NA * 3;
	CASE("{}", { lookups(Bndl()); for(int s = -1; s < NS; s++) query(Bndl(), {s}, 0); });
	for(int x = 0; x < N; x++) for(int y = -1; y < N; y++) for(int z = -1; z < (y < 0 ? 0 : N); z++){ if(!vc::tier && z >= 0 && (y % 3 != 1 || z % 3 == 2)) continue;
		Bndl b; b.m.push_back(mkmsg(x / 3, x % 3, 1)); if(y >= 0) b.m.push_back(mkmsg(y / 3, y % 3, 2)); if(z >= 0) b.m.push_back(mkmsg(z / 3, z % 3, 3));
		CASE("lookups in " + str(b), { lookups(b); });
		bool plain = true; for(auto &m : b.m) plain &= m.v.size() == 1; if(!plain) continue;
		CASE("queries of " + str(b), {
			auto go = [&](const std::vector<int> &s){ for(int strip = 0; strip < 2; strip++) try { query(b, s, strip); } catch(vc::Fail &f){ std::string t; for(int k : s) t += std::string(" ") + (k < 0 ? "NULL" : SEL[k]); vc::fail("selectors%s%s: %s", t.c_str(), strip ? " (stripping)" : "", f.msg.c_str()); } };
			for(int i = 0; i < NS; i++){ go({i}); for(int j = 0; j < NS; j++) if(j != i){ go({i, j}); if(vc::tier && z < 0) for(int k = 0; k < NS; k++) if(k != i && k != j) go({i, j, k}); } }
			go({-1, 0, 2}); go({0, 1, 2, 3, 4, 5, 6, 7, 8}); });
	}
	for(int n : {2, 9, 17, 33, 65, 100, 140}) for(int kind = 0; kind < 5; kind++) CASE(vc::fmt("%d selectors, messages of kind %d", n, kind), { std::vector<std::string> T; std::vector<int> ix; Bndl b; for(int k = 0; k < n; k++){ T.push_back(kind == 4 ? "/" + std::string(k + 1, 's') : vc::fmt("/s%d", k)); ix.push_back(kind % 2 ? n - 1 - k : k); }
		for(int k = 0; k < n; k++){ int p = (k * 7 + 3) % n; std::string a = kind == 0 ? vc::fmt("/s%d", p) : kind == 1 ? vc::fmt("/s%d/t%d", p, k) : kind == 2 ? (k % 9 ? vc::fmt("/u%d", k) : vc::fmt("/s%d*", p % 10)) : kind == 3 ? vc::fmt("/s[%d%d]/x", p % 10, (p + 1) % 10) : "/" + std::string(p + 1, 's'); b.m.push_back(Msg{a, {vi('i', k)}}); }
		for(int strip = 0; strip < 2; strip++){ query(b, T, ix, strip); std::vector<int> some; for(int k = 0; k < n; k += 2) some.push_back(k); query(b, T, some, strip); } vc::state(vc::fmt("%d %d", n, kind)); });
	for(int n : {63, 64, 65, 130, 300, 700}) for(int text : {0, 30, 200}) CASE(vc::fmt("%d messages with texts of %d characters", n, text), {
		Bndl b; for(int k = 0; k < n; k++){ Msg m = mkmsg(k % 37 == 5 ? 3 : k % 41 == 40 || k == n - 1 ? 4 : k % 29 == 28 ? 6 : 0, k % 3, k); if(k % 5 == 0) m.a = vc::fmt("/zz%d", k); if(text) m.v.push_back(vs(std::string(text, 'a' + k % 26))); b.m.push_back(m); }
		lookups(b); std::vector<int> s{0, 2, 3, 6}; query(b, s, 0); query(b, s, 1); std::vector<int> last{3}; query(b, last, 0); });
	for(int n : {15, 16, 17, 31, 32, 33, 40}) CASE(vc::fmt("%d messages", n), { Bndl b; for(int k = 0; k < n; k++) b.m.push_back(mkmsg(k % 3 == 1 ? 2 : 0, k % 3, k)); lookups(b); std::vector<int> s = {0, 2}; query(b, s, 0); query(b, s, 1); });
}
