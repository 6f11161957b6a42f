// C15: dispatch tables as maps, dispatch against the reference matcher
#include "ref.hpp"
#include "match.hpp"
extern "C" {
#include "osc_vtable.h"
#include "osc_dispatch.h"
}
const char *PROP = "C15";
static const char *SEL[] = {"/a", "/b", "/a/b", "/ab", "/a/b/c/longer/than/the/others", "/b/a", "/"};
static const char *ADDR[] = {"/a", "/b", "/a/b", "/ab", "/a/b/c", "/a*", "/[ab]/x", "/b/a/c", "/*", "/?/b/c", "/x/y", "/a/", "/{a,bb}/b"};
static const int NA = sizeof ADDR / sizeof *ADDR, NSEL = 7;
static int D(){ return vc::tier ? 5 : 4; }
std::string bounds(){ return vc::fmt("every sequence of up to %d table operations (%d for tables created with 0 or 3 slots instead of 1; add, rebind, rebind with context, rename, over 5 selectors x 2 handlers, with and without a context), resolved through every lookup, index and call after each step, then dispatched and delegated to with the delegate set, replaced and taken away; every bundle of 0..%d messages over %d addresses dispatched to every set of 1..3 of %d selectors, whole and by selector list, stripped and not; tables of eight initial sizes growing one entry at a time to %d, rebound, renamed and dispatched to", D(), vc::tier ? D() : 3, vc::tier ? 3 : 2, NA, NSEL, vc::tier ? 1000 : 300); }
void warmup(){}
struct Call { std::string sel; int method; long ctx; Bndl part, full; long len; void *bndl; };
static std::vector<Call> calls; struct Del { Bndl un; long len; void *bndl; long ctx; }; static std::vector<Del> dels;
static Bndl decS(t_osc_bndl_s *b, const char *w){ Bndl r; if(!b) return r; CHECK(dec(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b), r), "%s are not a well-formed bundle", w); CHECK(r.tt == 0, "%s have a timetag that was never set", w); return r; }
static void rec(int m, t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx){ calls.push_back({osc_vtable_entry_getSelector(e), m, (long)ctx, decS(p, "the partial matches"), decS(c, "the complete matches"), len, b}); CHECK(!p || osc_bundle_s_getLen(p) > 16, "empty bundle of partial matches"); }
extern "C" {
static void m0(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *x){ rec(0, e, len, b, p, c, x); }
static void m1(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *x){ rec(1, e, len, b, p, c, x); }
static void deleg(long len, char *b, t_osc_bndl_s *u, void *x){ dels.push_back({decS(u, "the unmatched messages"), len, b, (long)x}); }
}
static t_osc_vtable_method ME[] = {m0, m1};
struct Ent { std::string sel; int m; long ctx; };
typedef std::vector<Ent> Tab;
static Ent *find(Tab &t, const std::string &s){ for(auto &e : t) if(e.sel == s) return &e; return NULL; }
// the reference: what each entry receives
static void refDispatch(const Bndl &b, const std::string &sel, int strip, Bndl &part, Bndl &full){ for(auto &m : b.m){ MRes r = refMatch(m.a, sel); if(r.r == 3) full.m.push_back(m); else if(r.r == 1){ Msg x = m; if(strip && m.a.size() - r.po >= 2) x.a = m.a.substr(r.po); part.m.push_back(x); } } }
static void dispatch(t_osc_vtable *v, Tab &t, const Bndl &b, int strip, const std::vector<std::string> *only, bool haveDel){
	std::string e = enc(b); Buf buf(e); calls.clear(); dels.clear();
	if(only){ std::vector<char *> s; for(auto &x : *only) s.push_back((char *)x.c_str()); CHECK(osc_dispatch_selectors(v, s.size(), s.data(), buf.n, buf.p, strip) == OSC_ERR_NONE, "dispatch failed"); }
	else CHECK(osc_dispatch(v, buf.n, buf.p, strip) == OSC_ERR_NONE, "dispatch failed");
	vc::trans(); CHECK(buf.s() == e, "dispatch changed the bundle");
	Bndl un; for(auto &m : b.m){ bool any = false; for(auto &en : t){ int r = refMatch(m.a, en.sel).r; any |= r == 3 || r == 1; } if(!any) un.m.push_back(m); }
	bool wantDel = haveDel && (un.m.size() || b.m.empty());
	CHECK(dels.size() == (wantDel ? 1u : 0u), "delegation called %zu times, want %d", dels.size(), (int)wantDel);
	if(wantDel){ CHECK(eq(dels[0].un, un, false), "delegated %s, want %s", str(dels[0].un).c_str(), str(un).c_str()); CHECK(dels[0].ctx == 77 && dels[0].bndl == buf.p && dels[0].len == (long)buf.n, "delegation did not get the bundle and its context"); }
	std::vector<Ent *> w; if(b.m.size()){ if(only){ for(auto &s : *only) if(Ent *x = find(t, s)) w.push_back(x); } else for(auto &x : t) w.push_back(&x); }
	CHECK(calls.size() == w.size(), "%zu handlers called, want %zu", calls.size(), w.size());
	std::vector<bool> used(calls.size());
	for(auto *x : w){ int f = -1; for(size_t k = 0; k < calls.size(); k++) if(!used[k] && calls[k].sel == x->sel){ f = k; break; } CHECK(f >= 0, "the handler of %s was not called", x->sel.c_str()); used[f] = true; Call &c = calls[f]; Bndl p, q; refDispatch(b, x->sel, strip, p, q);
		CHECK(c.method == x->m && c.ctx == x->ctx, "%s: handler %d with context %ld called, want %d with %ld", x->sel.c_str(), c.method, c.ctx, x->m, x->ctx); CHECK(c.bndl == buf.p && c.len == (long)buf.n, "%s: the handler did not get the whole bundle", x->sel.c_str());
		CHECK(eq(c.full, q, false), "%s: complete matches %s, want %s", x->sel.c_str(), str(c.full).c_str(), str(q).c_str()); CHECK(eq(c.part, p, false), "%s: partial matches %s, want %s", x->sel.c_str(), str(c.part).c_str(), str(p).c_str()); }
}
static Bndl probe(){ Bndl b; int k = 0; for(const char *a : {"/a", "/b", "/a/b/c", "/ab", "/none", "/a*/b"}) b.m.push_back(Msg{a, {vi('i', k++)}}); return b; }
static void resolve(t_osc_vtable *v, Tab &t){
	CHECK(osc_vtable_getNumEntries(v) == (int)t.size(), "%d entries, want %zu", osc_vtable_getNumEntries(v), t.size());
	for(int s = 0; s < 5; s++){
		std::string z = SEL[s]; z += '\0'; Buf sb(z); char *sel = (char *)sb.p; Ent *x = find(t, SEL[s]); t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(v, sel);
		CHECK(!e == !x, "selector %s is %sin the table", SEL[s], e ? "" : "not "); int idx = osc_vtable_getIndexForSelector(v, sel);
		if(!x){ CHECK(idx == -1, "index %d for the absent selector %s", idx, sel); CHECK(osc_vtable_call(v, sel, 0, NULL, NULL, NULL) != 0, "calling the absent selector %s succeeds", sel); continue; }
		CHECK(!strcmp(osc_vtable_entry_getSelector(e), SEL[s]), "looking up %s finds the entry of %s", sel, osc_vtable_entry_getSelector(e));
		CHECK(idx >= 0 && idx < (int)t.size() && osc_vtable_getEntryByIndex(v, idx) == e && osc_vtable_getIndexForEntry(v, e) == idx, "index %d for %s", idx, sel);
		calls.clear(); CHECK(osc_vtable_call(v, sel, 0, NULL, NULL, NULL) == 0 && calls.size() == 1 && calls[0].sel == SEL[s] && calls[0].method == x->m && calls[0].ctx == x->ctx, "calling %s reaches handler %d context %ld, want %d %ld", sel, calls.empty() ? -1 : calls[0].method, calls.empty() ? -1 : calls[0].ctx, x->m, x->ctx);
	}
	CHECK(!osc_vtable_getEntryByIndex(v, t.size()), "an entry beyond the last"); CHECK(!osc_vtable_getEntryByIndex(v, -1), "an entry before the first"); CHECK(osc_vtable_getIndexForEntry(v, NULL) == -1, "an index for no entry");
	CHECK(osc_vtable_getNumSlots(v) >= (int)t.size(), "%d slots hold %zu entries", osc_vtable_getNumSlots(v), t.size());
	{ std::vector<std::string> g, w; for(int k = 0; k < (int)t.size(); k++){ t_osc_vtable_entry *e = osc_vtable_getEntryByIndex(v, k); std::string n = osc_vtable_entry_getSelector(e); g.push_back(n); w.push_back(t[k].sel); Ent *x = find(t, n); CHECK(x, "entry %d is for %s, which is not in the table", k, n.c_str()); calls.clear(); CHECK(osc_vtable_callWithEntry(v, e, 0, NULL, NULL, NULL) == 0 && calls.size() == 1 && calls[0].sel == n && calls[0].method == x->m && calls[0].ctx == x->ctx, "calling entry %d reaches the wrong handler or context", k); } std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); CHECK(g == w, "the entries by index are not those of the table"); }
	std::string st; for(auto &x : t) st += vc::fmt("%s %d %ld;", x.sel.c_str(), x.m, x.ctx); vc::state(st); vc::trans(4);
}
// handing something to the delegate directly
static void delegate(t_osc_vtable *v, long ctx){
	for(int k = 0; k < 3; k++){ Bndl b; if(k) b.m.push_back(Msg{"/a", {vi('i', 1)}}); if(k == 2) b.m.push_back(Msg{"/b", {}}); std::string e = enc(b); Buf buf(e); t_osc_bndl_s *u = k ? osc_bundle_s_alloc(buf.n, buf.p) : NULL; dels.clear(); calls.clear();
		CHECK(osc_vtable_delegate(v, buf.n, buf.p, u) == 0, "delegating fails"); CHECK(dels.size() == (ctx ? 1u : 0u) && calls.empty(), "the delegate was called %zu times", dels.size());
		if(ctx) CHECK(dels[0].ctx == ctx && dels[0].bndl == buf.p && dels[0].len == (long)buf.n && eq(dels[0].un, b, false), "the delegate got %s with context %ld", str(dels[0].un).c_str(), dels[0].ctx);
		CHECK(buf.s() == e, "delegating changed the bundle"); if(u) osc_bundle_s_free(u); vc::trans(); }
}
struct Op { int k, s, a; };
static std::vector<Op> OPS; static std::string opstr(const Op &o){ switch(o.k){ case 0: return vc::fmt("add(%s,%d)", SEL[o.s], o.a); case 1: return vc::fmt("rebind(%s,%d)", SEL[o.s], o.a); case 2: return vc::fmt("rebindctx(%s,%d)", SEL[o.s], o.a); default: return vc::fmt("rename(%s,%s)", SEL[o.s], SEL[o.a]); } }
static void seqrun(const std::vector<Op> &seq, int slots){
	t_osc_vtable *v = osc_vtable_alloc(slots); Tab t; long next = 100; resolve(v, t); bool del = seq.size() % 2; if(del) osc_vtable_setDelegationMethod(v, deleg, (void *)77);
	for(auto &o : seq){ Ent *x = find(t, SEL[o.s]); next++; long ctx = o.k == 0 && o.a == 0 && o.s % 2 || o.k == 2 && o.s % 2 == 0 ? 0 : next; std::string z = SEL[o.s]; z += '\0'; { Buf sb(z); char *sel = (char *)sb.p;
		switch(o.k){
		case 0: CHECK(osc_vtable_addEntry(v, sel, ME[o.a], (void *)ctx) == OSC_ERR_NONE, "add failed"); if(x){ x->m = o.a; x->ctx = ctx; } else t.push_back({SEL[o.s], o.a, ctx}); break;
		case 1: CHECK((osc_vtable_rebindSelector(v, sel, ME[o.a]) == OSC_ERR_NONE) == !!x, "rebinding reports the wrong result"); if(x) x->m = o.a; break;
		case 2: CHECK((osc_vtable_rebindSelectorWithContext(v, sel, ME[o.a], (void *)ctx) == OSC_ERR_NONE) == !!x, "rebinding reports the wrong result"); if(x){ x->m = o.a; x->ctx = ctx; } break;
		case 3: { if(o.a != o.s && find(t, SEL[o.a])) break; std::string nz = SEL[o.a]; nz += '\0'; Buf nb(nz); /* the old name may be the one the entry itself holds */ t_osc_vtable_entry *own = osc_vtable_getEntryBySelector(v, sel); CHECK((osc_vtable_renameEntry(v, own && o.s % 2 == 0 && o.a != o.s ? osc_vtable_entry_getSelector(own) : sel, (char *)nb.p) == OSC_ERR_NONE) == !!x, "renaming reports the wrong result"); if(x) x->sel = SEL[o.a]; } break; } }
		resolve(v, t);
	}
	dispatch(v, t, probe(), 1, NULL, del); delegate(v, del ? 77 : 0); if(del){ osc_vtable_setDelegationMethod(v, deleg, (void *)78); delegate(v, 78); osc_vtable_setDelegationMethod(v, NULL, NULL); delegate(v, 0); dispatch(v, t, probe(), 0, NULL, false); } osc_vtable_free(v); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
// tables of many entries, looked at as they grow
static void many(int slots, int N, int kind){
	auto nm = [&](int k){ return kind == 0 ? vc::fmt("/e%d", k) : kind == 1 ? "/" + std::string(k % 97 + 1, 'a' + k / 97) : vc::fmt("/common/leading/part/%d/common/rest/of/the/selector", k * 7919 % 100003); };
	t_osc_vtable *v = osc_vtable_alloc(slots); Tab t;
	auto check = [&](){
		CHECK(osc_vtable_getNumEntries(v) == (int)t.size() && osc_vtable_getNumSlots(v) >= (int)t.size(), "%d entries in %d slots, want %zu", osc_vtable_getNumEntries(v), osc_vtable_getNumSlots(v), t.size());
		std::set<int> seen; for(auto &x : t){ Buf sb(x.sel + std::string(1, 0)); t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(v, sb.p); CHECK(e && x.sel == osc_vtable_entry_getSelector(e), "selector %s is lost among %zu", sb.p, t.size()); int i = osc_vtable_getIndexForSelector(v, sb.p); CHECK(i >= 0 && i < (int)t.size() && seen.insert(i).second && osc_vtable_getEntryByIndex(v, i) == e && osc_vtable_getIndexForEntry(v, e) == i, "index %d for %s", i, sb.p); calls.clear(); CHECK(osc_vtable_call(v, sb.p, 0, NULL, NULL, NULL) == 0 && calls.size() == 1 && calls[0].sel == x.sel && calls[0].method == x.m && calls[0].ctx == x.ctx, "calling %s reaches the wrong handler", sb.p); }
		for(auto s : {nm(t.size()), nm(t.size() + 1), std::string("/none")}){ Buf sb(s + std::string(1, 0)); CHECK(!osc_vtable_getEntryBySelector(v, sb.p) && osc_vtable_getIndexForSelector(v, sb.p) == -1 && osc_vtable_call(v, sb.p, 0, NULL, NULL, NULL) != 0, "the absent selector %s is found", sb.p); }
		CHECK(!osc_vtable_getEntryByIndex(v, t.size()), "an entry beyond the last"); vc::trans(t.size()); };
	for(int n = 1; n <= N; n++){ Buf sb(nm(n - 1) + std::string(1, 0)); CHECK(osc_vtable_addEntry(v, sb.p, ME[n % 2], (void *)(long)(n * 10)) == OSC_ERR_NONE, "add failed"); t.push_back({sb.p, n % 2, n * 10}); if(vc::look(n)) check(); }
	for(size_t k = 0; k < t.size(); k += 3){ Buf sb(t[k].sel + std::string(1, 0)); if(k % 2){ CHECK(osc_vtable_rebindSelectorWithContext(v, sb.p, ME[0], (void *)(long)k) == OSC_ERR_NONE, "rebind failed"); t[k].m = 0; t[k].ctx = k; } else { CHECK(osc_vtable_addEntry(v, sb.p, ME[1], (void *)(long)(k + 1)) == OSC_ERR_NONE, "adding again failed"); t[k].m = 1; t[k].ctx = k + 1; } } check();
	osc_vtable_setDelegationMethod(v, deleg, (void *)77); Bndl b; for(size_t k : {(size_t)0, t.size() / 2, t.size() - 1}) b.m.push_back(Msg{t[k].sel, {vi('i', k)}}); b.m.push_back(Msg{t[t.size() / 3].sel + "/below", {}}); b.m.push_back(Msg{"/e*", {vs("p")}}); b.m.push_back(Msg{"/none/of/them", {}}); for(int strip = 0; strip < 2; strip++) dispatch(v, t, b, strip, NULL, true);
	std::vector<std::string> only{t[t.size() / 2].sel, "/none", t[0].sel, t.back().sel}; dispatch(v, t, b, 1, &only, true); Bndl big; for(int k = 0; k < N + 3; k++) big.m.push_back(Msg{nm(k), {vi('i', k)}}); if(N <= 130) dispatch(v, t, big, 0, NULL, true);
	for(size_t k = 1; k < t.size(); k += 4){ Buf sb(t[k].sel + std::string(1, 0)), nb("/renamed" + t[k].sel + std::string(1, 0)); CHECK(osc_vtable_renameEntry(v, sb.p, nb.p) == OSC_ERR_NONE, "rename failed"); CHECK(!osc_vtable_getEntryBySelector(v, sb.p), "the old name of %s is still there", nb.p); t[k].sel = nb.p; } check(); dispatch(v, t, b, 1, NULL, true);
	osc_vtable_free(v); vc::state(vc::fmt("many %d %d %d", slots, N, kind)); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	for(int slots : {0, 1, 2, 5, 16, 31, 64, 300}) for(int N : {30, 100, vc::tier ? 1000 : 300}) for(int kind = 0; kind < 3; kind++) CASE(vc::fmt("table of %d slots growing to %d entries, names %d", slots, N, kind), { many(slots, N, kind); });
	for(int s = 0; s < 5; s++) for(int a = 0; a < 2; a++) for(int k = 0; k < 3; k++) if(k == 0 || a == 1) OPS.push_back({k, s, a});
	for(int s : {0, 2, 4}) for(int a = 0; a < 5; a++) if(vc::tier || a != 1 && s != 2) OPS.push_back({3, s, a});
	int N = OPS.size();
	for(int slots : {0, 1, 3}){
		CASE(vc::fmt("table of %d slots: no operations", slots), { seqrun({}, slots); });
		for(int x = 0; x < N; x++) for(int y = -1; y < N; y++) CASE(vc::fmt("table of %d slots: %s %s ...", slots, opstr(OPS[x]).c_str(), y < 0 ? "" : opstr(OPS[y]).c_str()), {
			std::vector<Op> seq{OPS[x]}; if(y >= 0) seq.push_back(OPS[y]);
			std::function<void()> go = [&](){ try { seqrun(seq, slots); } catch(vc::Fail &f){ std::string s; for(auto &o : seq) s += opstr(o) + " "; vc::fail("after %s: %s", s.c_str(), f.msg.c_str()); } if(y >= 0 && (int)seq.size() < (slots == 1 || vc::tier ? D() : 3)) for(auto &o : OPS){ seq.push_back(o); go(); seq.pop_back(); } };
			go(); });
	}
	int M = vc::tier ? 3 : 2;
	for(int x = -1; x < NA; x++) for(int y = -1; y < (x < 0 ? 0 : NA); y++) for(int z = -1; z < (y < 0 || M < 3 ? 0 : NA); z++){
		Bndl b; int id = 0; for(int k : {x, y, z}) if(k >= 0) b.m.push_back(Msg{ADDR[k], {vi('i', ++id), vs("s")}}); if(id == 2) b.m[1].v.clear(); b.tt = id == 1 ? 5 : 0;
		CASE("dispatch " + str(b), {
			for(int i = 0; i < NSEL; i++) for(int j = -1; j < NSEL; j++) for(int k = -1; k < (j < 0 ? 0 : NSEL); k++){ if(i == j || j == k && j >= 0 || i == k) continue;
				t_osc_vtable *v = osc_vtable_alloc(k < 0 ? 0 : 2); Tab t; int c = 0; for(int s : {i, j, k}) if(s >= 0){ osc_vtable_addEntry(v, (char *)SEL[s], ME[c % 2], (void *)(long)(10 + c)); t.push_back({SEL[s], c % 2, 10 + c}); c++; }
				bool del = (i + j + k) & 1; if(del) osc_vtable_setDelegationMethod(v, deleg, (void *)77); std::string what = SEL[i]; if(j >= 0) what += std::string(" ") + SEL[j]; if(k >= 0) what += std::string(" ") + SEL[k];
				try { for(int strip = 0; strip < 2; strip++){ dispatch(v, t, b, strip, NULL, del); std::vector<std::vector<std::string>> sets{{SEL[i], "/not/there"}, {"/not/there", SEL[i]}}; if(k >= 0) sets = {{SEL[i], "/not/there", SEL[k]}, {SEL[k], SEL[i]}, {SEL[j], "/not/there", SEL[i], SEL[k]}}; else if(j >= 0) sets = {{SEL[j]}, {SEL[j], "/not/there", SEL[i]}}; for(auto &only : sets) dispatch(v, t, b, strip, &only, del); } } catch(vc::Fail &f){ vc::fail("selectors %s: %s", what.c_str(), f.msg.c_str()); }
				osc_vtable_free(v); vc::state(str(b) + what); }
			CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); });
	}
}
