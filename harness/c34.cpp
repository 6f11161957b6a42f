// C34: the size of the data is limited by memory alone
#include "ref.hpp"
#include "expr.hpp"
#include "eval.hpp"
#include "text.hpp"
extern "C" {
#include "osc_vtable.h"
#include "osc_dispatch.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_bundle_iterator_s.h"
#include <pthread.h>
}
const char *PROP = "C34";
static std::vector<long> sizes(){ std::vector<long> r{1000, 70000, 600000, 2 << 20}; if(vc::tier){ r.push_back(4095); r.push_back(4096); r.push_back(65536); r.push_back(12 << 20); r.push_back(40 << 20); } return r; }
static const char *KIND[] = {"text", "blob", "address", "address in front of another part", "many arguments", "many messages", "sub-bundle"};
static const int NK = 7;
std::string bounds(){ return vc::fmt("7 kinds of large bundles x %zu sizes up to %ld bytes x 7 groups of operations on encoded and in-memory bundles, in a thread with a stack of 512 kilobytes; nesting to %d levels; addresses of up to %d parts; every built-in function and operator on lists of up to %d numbers, text, constants and addresses of up to %ld bytes in expressions, bundles of up to 20000 messages", sizes().size(), (long)sizes().back(), 1000, 2000, vc::tier ? 140000 : 70000, (long)sizes().back()); }
void warmup(){ long n = 0; char *p = NULL; osc_expr_getFunctionsForCategory((char *)"/core", &n, &p); if(p) osc_mem_free(p); }
static std::string big(long n, const char *alpha = "abcdefghijklmnopqrstuvwxyz"){ std::string s(n, ' '); size_t l = strlen(alpha); for(long k = 0; k < n; k++) s[k] = alpha[(k * 7 + k / 26) % l]; return s; }
static Bndl mk(int kind, long n){
	Bndl b; b.m.push_back(Msg{"/first", {vi('i', 1)}});
	switch(kind){
	case 0: b.m.push_back(Msg{"/big/x", {vs(big(n)), vi('i', 2)}}); break;
	case 1: b.m.push_back(Msg{"/big/x", {vblob(big(n)), vi('i', 2)}}); break;
	case 2: b.m.push_back(Msg{"/" + big(n), {vi('i', 2)}}); break;
	case 3: b.m.push_back(Msg{"/" + big(n) + "/x", {vi('i', 2)}}); break;
	case 4: { Msg m{"/big/x", {}}; for(long k = 0; k < n / 8; k++) m.v.push_back(vi('i', k)); b.m.push_back(m); break; }
	case 5: for(long k = 0; k < std::min(n / 400, 3000l); k++) b.m.push_back(Msg{vc::fmt("/big/%ld", k), {vi('i', k)}}); break;
	case 6: b.m.push_back(Msg{"/big/x", {vb(Bndl{0, {Msg{"/s", {vs(big(n))}}, Msg{"/t", {vi('i', 5)}}}})}}); break;
	}
	b.m.push_back(Msg{"/last", {vd('d', .5)}}); return b;
}
static Bndl decP(t_osc_bndl_s *b, const char *w){ Bndl r; CHECK(b, "no %s", w); CHECK(dec(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b), r), "%s is not a well-formed bundle", w); return r; }
static Bndl decB(const char *p, long n, const char *w){ Bndl r; CHECK(p && dec((char *)p, n, r), "%s is not a well-formed bundle", w); return r; }
static void is(const Bndl &g, const Bndl &w, const char *what){ CHECK(eq(g, w, false), "%s gives %zu messages that are not the %zu expected", what, g.m.size(), w.m.size()); vc::trans(); }
static std::vector<Bndl> gotU; static void del(long, char *, t_osc_bndl_s *u, void *){ gotU.push_back(decP(u, "delegated bundle")); }
static std::vector<std::pair<Bndl, Bndl>> gotC; static void meth(t_osc_vtable_entry *, long, char *, t_osc_bndl_s *p, t_osc_bndl_s *c, void *){ Bndl x, y; if(p) x = decP(p, "partial bundle"); if(c) y = decP(c, "complete bundle"); gotC.push_back({x, y}); }
static Bndl only(const Bndl &b, std::function<bool(const Msg &)> f){ Bndl r; for(auto &m : b.m) if(f(m)) r.m.push_back(m); return r; }
static bool pre(const std::string &a, const std::string &p){ return a.compare(0, p.size(), p) == 0; }
static void encoded(const Bndl &b, int op){
	std::string e = enc(b); Buf buf(e); t_osc_bndl_s *s = osc_bundle_s_alloc(buf.n, buf.p);
	Bndl other{0, {Msg{"/first", {vs("other")}}, Msg{"/new", {vi('i', 3)}}}}; std::string oe = enc(other); Buf ob(oe); t_osc_bndl_s *o = osc_bundle_s_alloc(ob.n, ob.p);
	std::string sel = b.m.size() > 1 && b.m[1].a.size() > 500 ? b.m[1].a.substr(0, b.m[1].a.rfind('/') ? b.m[1].a.rfind('/') : std::string::npos) : "/big"; Buf selb(sel + '\0'); char *SEL[] = {selb.p, (char *)"/first"};
	auto under = [&](const Msg &m){ return m.a == sel || pre(m.a, sel + "/"); };
	if(op == 0){ // reading
		CHECK(osc_error_bundleSanityCheck(buf.n, buf.p) == OSC_ERR_NONE, "the check rejects it"); is(rdBs(buf.n, buf.p), b, "reading"); int c = 0; osc_bundle_s_getMsgCount(buf.n, buf.p, &c); CHECK(c == (int)b.m.size(), "%d messages", c);
		t_osc_bndl_u *u = osc_bundle_s_deserialize(buf.n, buf.p); is(rdB(u), b, "decoding"); t_osc_bndl_s *z = osc_bundle_u_serialize(u); is(decP(z, "the re-encoded bundle"), b, "encoding again"); osc_bundle_s_deepFree(z); t_osc_bndl_u *cu = NULL; osc_bundle_u_copy(&cu, u); osc_bundle_u_free(u); is(rdB(cu), b, "copying in memory"); osc_bundle_u_free(cu);
		t_osc_bndl_s *dc = NULL; osc_bundle_s_deepCopy(&dc, s); is(decP(dc, "the copy"), b, "copying"); osc_bundle_s_deepFree(dc);
		for(auto &m : b.m){ char *p = osc_bundle_s_getFirstFullMatch(buf.n, buf.p, (char *)m.a.c_str()); CHECK(p && !strcmp(p + 4, m.a.c_str()), "a message is not found by its address"); p = osc_bundle_s_getFirstEqualAddr(buf.n, buf.p, (char *)m.a.c_str()); CHECK(p && !strcmp(p + 4, m.a.c_str()), "a message is not found by its address"); vc::trans(2); if(b.m.size() > 100 && &m - &b.m[0] > 20) break; }
		t_osc_bndl_it_s *it = osc_bndl_it_s_get(buf.n, buf.p); for(auto &m : b.m){ t_osc_msg_s *x = osc_bndl_it_s_next(it), *w = osc_message_s_alloc(); osc_message_s_wrap(w, osc_message_s_getPtr(x)); osc_message_s_cacheDataOffsets(w); int n = m.v.size(); for(int k : {0, n / 2, n - 1}){ if(k < 0 || k >= n) continue; t_osc_atom_s *a = NULL; osc_message_s_getArg(w, k, &a); CHECK(eq(rdVs(a), m.v[k]), "argument %d of %d is another value", k, n); char *t = NULL; osc_atom_s_getString(a, 0, &t); osc_mem_free(t); char *bl = NULL; int32_t l = 0; osc_atom_s_getBlobCopy(&bl, &l, a); osc_mem_free(bl); t_osc_bndl_s *nb = osc_atom_s_getBndlCopy(a); if(nb) is(decP(nb, "a sub-bundle"), *m.v[k].b, "copying a sub-bundle"); osc_bundle_s_deepFree(nb); osc_atom_s_free(a); } osc_message_s_free(w); } osc_bndl_it_s_destroy(it);
	}else if(op == 1){ // queries
		for(int strip = 0; strip < 2; strip++){ t_osc_rset *rs = NULL; CHECK(osc_query_select(2, SEL, buf.n, buf.p, strip, &rs) == OSC_ERR_NONE, "the query fails"); Bndl un = only(b, [&](const Msg &m){ return !under(m) && m.a != "/first"; }); is(decP(osc_rset_getUnmatched(rs), "the unmatched messages"), un, "querying (unmatched)");
			osc_rset_initIterator(rs); int n = 0; while(osc_rset_hasNext(rs)){ t_osc_rset_result *r = osc_rset_next(rs); n++; bool big = !strcmp(osc_rset_result_getSelector(r), sel.c_str()); Bndl wp, wc; if(big){ wp = only(b, [&](const Msg &m){ return under(m) && m.a != sel; }); wc = only(b, [&](const Msg &m){ return m.a == sel; }); if(strip) for(auto &m : wp.m) m.a = m.a.substr(sel.size()); } else wc = only(b, [&](const Msg &m){ return m.a == "/first"; });
				t_osc_bndl_s *p = osc_rset_result_getPartialMatches(r), *c = osc_rset_result_getCompleteMatches(r); Bndl gp, gc; if(p) gp = decP(p, "the partial matches"); if(c) gc = decP(c, "the complete matches"); is(gp, wp, "querying (partial)"); is(gc, wc, "querying (complete)"); } CHECK(n == 2, "%d results", n); osc_rset_free(rs); }
		for(int full = 0; full < 2; full++){ t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(buf.n, buf.p, sel.c_str(), full); Bndl w = only(b, [&](const Msg &m){ return full ? m.a == sel : under(m); }); CHECK((ar ? osc_message_array_s_getLen(ar) : 0) == (long)w.m.size(), "looking up finds %ld messages", ar ? (long)osc_message_array_s_getLen(ar) : 0); if(ar) osc_message_array_s_free(ar);
			t_osc_bndl_u *u = mkB(b); t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(u, sel.c_str(), full); CHECK((au ? osc_message_array_u_getLen(au) : 0) == (long)w.m.size(), "looking up in memory finds %ld messages", au ? (long)osc_message_array_u_getLen(au) : 0); if(au) osc_message_array_u_free(au); osc_bundle_u_free(u); }
	}else if(op == 2){ // dispatch
		for(int strip = 0; strip < 2; strip++) for(int sub = 0; sub < 2; sub++){ t_osc_vtable *v = osc_vtable_alloc(2); osc_vtable_addEntry(v, SEL[0], meth, NULL); osc_vtable_addEntry(v, SEL[1], meth, NULL); osc_vtable_setDelegationMethod(v, del, NULL); gotU.clear(); gotC.clear(); (sub ? osc_dispatch_selectors(v, 2, SEL, buf.n, buf.p, strip) : osc_dispatch(v, buf.n, buf.p, strip));
			Bndl wp = only(b, [&](const Msg &m){ return under(m) && m.a != sel; }), wc = only(b, [&](const Msg &m){ return m.a == sel; }); if(strip) for(auto &m : wp.m) m.a = m.a.substr(sel.size()); CHECK(gotC.size() == 2, "%zu handlers called", gotC.size()); int k = gotC[0].second.m.size() == 1 && gotC[0].second.m[0].a == "/first" && gotC[0].first.m.empty() ? 1 : 0; is(gotC[k].first, wp, "dispatching (partial)"); is(gotC[k].second, wc, "dispatching (complete)"); CHECK(gotU.size() == 1, "delegated %zu times", gotU.size()); is(gotU[0], only(b, [&](const Msg &m){ return !under(m) && m.a != "/first"; }), "dispatching (rest)"); osc_vtable_free(v); gotU.clear(); gotC.clear(); }
	}else if(op == 3){ // set operations
		for(int q = 0; q < 2; q++){ t_osc_bndl_s *l = q ? o : s, *r = q ? s : o; const Bndl &L = q ? other : b, &R = q ? b : other; auto in = [](const Bndl &x, const Msg &m){ for(auto &y : x.m) if(y.a == m.a) return true; return false; };
			Bndl un = L; for(auto &m : R.m) if(!in(L, m)) un.m.push_back(m); t_osc_bndl_s *u = osc_bundle_s_union(l, r); is(decP(u, "the union"), un, "the union"); osc_bundle_s_deepFree(u);
			Bndl ix = only(L, [&](const Msg &m){ return in(R, m); }), df = only(L, [&](const Msg &m){ return !in(R, m); }); for(auto &m : R.m) if(!in(L, m)) df.m.push_back(m);
			for(int k = 0; k < 2; k++){ long len = 0; char *p = NULL; (k ? osc_bundle_s_intersection : osc_bundle_s_difference)(osc_bundle_s_getLen(l), osc_bundle_s_getPtr(l), osc_bundle_s_getLen(r), osc_bundle_s_getPtr(r), &len, &p); is(decB(p, len, "the result"), k ? ix : df, k ? "the intersection" : "the difference"); osc_mem_free(p); }
			Bndl cc = L; cc.m.insert(cc.m.end(), R.m.begin(), R.m.end()); Buf c(e.size() + oe.size() - 16); CHECK(osc_bundle_s_concat(osc_bundle_s_getLen(l), osc_bundle_s_getPtr(l), osc_bundle_s_getLen(r), osc_bundle_s_getPtr(r), c.p) == (int)c.n, "joining"); is(decB(c.p, c.n, "the joined bundle"), cc, "joining");
			t_osc_bndl_u *lu = mkB(L), *ru = mkB(R), *xu = NULL; osc_bundle_u_union(lu, ru, &xu); is(rdB(xu), un, "the union in memory"); osc_bundle_u_free(xu); xu = NULL; osc_bundle_u_intersection(lu, ru, &xu); is(rdB(xu), ix, "the intersection in memory"); osc_bundle_u_free(xu); osc_bundle_u_free(lu); osc_bundle_u_free(ru); }
	}else if(op == 4){ // edits
		t_osc_bndl_it_s *it = osc_bndl_it_s_get(buf.n, buf.p); osc_bndl_it_s_next(it); t_osc_msg_s *m = osc_bndl_it_s_next(it);
		{ long len = ob.n; char *p = (char *)osc_mem_alloc(len); memcpy(p, ob.p, len); Bndl w = other; osc_bundle_s_appendMessage(&len, &p, m); w.m.push_back(b.m[1]); is(decB(p, len, "the bundle"), w, "appending"); t_osc_msg_s *old = osc_message_s_alloc(); osc_message_s_wrap(old, p + 16); long pos = len, bl = len; CHECK(osc_bundle_s_replaceMessage(&bl, &pos, &p, old, m) == OSC_ERR_NONE, "replacing fails"); w.m[0] = b.m[1]; is(decB(p, pos, "the bundle"), w, "replacing"); osc_message_s_free(old); osc_mem_free(p); }
		for(auto *mm : {&b.m[0], &b.m[1]}){ Buf c(e); long n = c.n; CHECK(osc_bundle_s_removeMessage((char *)mm->a.c_str(), &n, c.p, 1) == OSC_ERR_NONE, "removing fails"); is(decB(c.p, n, "the bundle"), only(b, [&](const Msg &x){ return x.a != mm->a; }), "removing"); }
		for(std::string nm : {std::string("/x"), "/" + big(1 << 20)}){ int want = enc(Msg{nm, b.m[1].v}).size(); Buf c(want + 4); int32_t g = osc_message_s_renameCopy(c.p, m, nm.size(), (char *)nm.c_str()); CHECK(g == want, "renaming gives %d bytes, want %d", g, want); CHECK(std::string(c.p + 4, want) == enc(Msg{nm, b.m[1].v}), "renaming gives another message"); vc::trans(); }
		{ t_osc_msg_u *u = osc_message_s_deserialize(m); t_osc_bndl_u *bu = osc_bundle_u_alloc(); osc_bundle_u_addMsg(bu, u); t_osc_msg_u *c = NULL; osc_message_u_deepCopy(&c, u); osc_bundle_u_replaceMessage(bu, c); CHECK(eq(rdM(osc_bundle_u_getFirstMsg(bu)), b.m[1]), "replacing in memory"); t_osc_msg_s *z = osc_message_u_serialize(osc_bundle_u_getFirstMsg(bu)); CHECK(eq(rdMs(z), b.m[1]), "encoding a message"); osc_message_s_deepFree(z); osc_bundle_u_removeMessage(bu, b.m[1].a.c_str()); CHECK(osc_bundle_u_getMsgCount(bu) == 0, "removing in memory"); osc_bundle_u_free(bu); }
		osc_bndl_it_s_destroy(it);
	}else if(op == 5){ // explode and flatten
		t_osc_bndl_s *x = NULL, *f = NULL; CHECK(osc_bundle_s_explode(&x, s, 0, (char *)"/") == OSC_ERR_NONE && osc_bundle_s_flatten(&f, x, 0, (char *)"", 1) == OSC_ERR_NONE, "exploding and flattening fail"); Bndl g = decP(f, "the flattened bundle"), w; for(auto &m : b.m) if(m.v.size() == 1 && m.v[0].t == '.') for(auto &q : m.v[0].b->m) w.m.push_back(Msg{m.a + q.a, q.v}); else w.m.push_back(m);
		auto by = [](const Msg &p, const Msg &q){ return p.a < q.a; }; std::sort(g.m.begin(), g.m.end(), by); std::sort(w.m.begin(), w.m.end(), by); is(g, w, "exploding and flattening"); osc_bundle_s_deepFree(x); osc_bundle_s_deepFree(f);
	}else if(op == 6){ // text
		char *t = osc_bundle_s_format(buf.n, buf.p); t_osc_bndl_u *u = osc_bundle_s_deserialize(buf.n, buf.p); char *tu = osc_bundle_u_format(u); osc_bundle_u_free(u); CHECK(!strcmp(t, tu), "the encoded and the in-memory form print differently"); std::string cut = t; long full = cut.size(); for(long n : {full / 2, full, full + 1}){ Buf c(n); CHECK(osc_bundle_s_nformat(c.p, n, buf.n, buf.p, 0) == full, "printing into %ld bytes", n); CHECK(n == 0 || !strncmp(c.p, t, n - 1), "printing into %ld bytes gives other text", n); }
		bool blob = b.m[1].v.size() && b.m[1].v[0].t == 'b'; if(!blob){ t_osc_bndl_u *p = NULL; CHECK(osc_parser_parseString(full, t, &p) == OSC_ERR_NONE && p, "its printed form does not parse"); Bndl g = rdB(p); for(auto &m : g.m) for(auto &v : m.v) if(v.t == 'h') v.t = 'i'; CHECK(g.m.size() == b.m.size() && g.m[1].a == b.m[1].a && g.m[1].v.size() == b.m[1].v.size(), "its printed form parses as another bundle"); if(b.m[1].v.size() && b.m[1].v[0].t == 's') CHECK(g.m[1].v[0].s == b.m[1].v[0].s, "its printed form parses as other text"); osc_bundle_u_free(p); }
		osc_mem_free(t); osc_mem_free(tu); vc::trans(4);
	}
	CHECK(buf.s() == e && ob.s() == oe, "the input was changed"); osc_bundle_s_free(s); osc_bundle_s_free(o);
}
static const char *OPN[] = {"reading, copying, decoding", "queries and lookups", "dispatch", "set operations", "edits", "explode and flatten", "printing and parsing"};
// run in a thread with a stack of 512 kilobytes
static const long STACK = 512 << 10;
static void small(std::function<void()> b){ struct A { std::function<void()> *b; std::string m; bool f; } a{&b, "", false}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, STACK); pthread_t t;
	if(pthread_create(&t, &at, [](void *p) -> void * { A *a = (A *)p; try{ (*a->b)(); }catch(vc::Fail &f){ a->f = true; a->m = f.msg; } return NULL; }, &a)) abort(); pthread_join(t, NULL); pthread_attr_destroy(&at); if(a.f) throw vc::Fail{a.m}; }
static t_osc_expr *parse(const std::string &t){ Buf b(t + '\0'); t_osc_expr *f = NULL; CHECK(osc_expr_parser_parseExpr(b.p, &f, NULL) == OSC_ERR_NONE && f, "%s does not parse", t.substr(0, 80).c_str()); return f; }
static Got on(const std::string &t, const std::string &e){ vc::state(t.substr(0, 200) + std::to_string(e.size())); Got g; small([&]{ t_osc_expr *f = parse(t); g = evalOn(f, e); osc_expr_free(f); }); return g; }
static Got run(const std::string &t, const Bndl &b){ return on(t, enc(b)); }
static void live(){ CHECK(vc::live() == 0, "%ld blocks remain", vc::live()); }
void explore(){
	for(long n : sizes()) for(int k = 0; k < NK; k++) for(int op = 0; op < 7; op++) if(k == 4 && n > 1 << 20) continue; else CASE(vc::fmt("%s of %ld bytes: %s", KIND[k], n, OPN[op]), { small([&]{ encoded(mk(k, k == 4 && op == 6 ? std::min(n, 100000l) : n), op); }); live(); vc::state(vc::fmt("%d %ld %d", k, n, op)); });
	// nesting and long chains of parts
	for(int d : {10, 100, 1000}) for(int op = 0; op < 7; op++) if(op == 5 && d > 100) continue; else CASE(vc::fmt("%d levels of sub-bundles: %s", d, OPN[op]), { Bndl in{0, {Msg{"/l", {vi('i', 1)}}}}; for(int k = 0; k < d; k++){ Bndl o{0, {Msg{"/l", {vb(in)}}}}; in = o; } Bndl b{0, {Msg{"/first", {vi('i', 1)}}, Msg{"/big/x", {vb(in)}}, Msg{"/last", {vd('d', .5)}}}}; if(op != 5){ if(d <= 100) small([&]{ encoded(b, op); }); else encoded(b, op); } else { std::string e = enc(b); Buf buf(e); t_osc_bndl_s *s = osc_bundle_s_alloc(buf.n, buf.p), *f = NULL; osc_bundle_s_flatten(&f, s, 0, (char *)"", 1); Bndl g = decP(f, "the flattened bundle"); std::string a = "/big/x"; for(int k = 0; k <= d; k++) a += "/l"; bool ok = false; for(auto &m : g.m) ok |= m.a == a; CHECK(ok && g.m.size() == 3, "flattening gives other messages"); osc_bundle_s_deepFree(f); osc_bundle_s_free(s); } live(); });
	for(int d : {10, 200, 2000}) CASE(vc::fmt("an address of %d parts", d), { std::string a; for(int k = 0; k < d; k++) a += "/p"; Bndl b{0, {Msg{"/first", {vi('i', 1)}}, Msg{a, {vi('i', 2)}}, Msg{"/last", {vi('i', 3)}}}}; for(int op = 0; op < 6; op++){ if(op == 1 || op == 2) continue; encoded(b, op); } live(); });
	// expressions: text
	for(long n : sizes()){
		std::string x = big(n), y = big(n, "zyxw "); Bndl b{0, {Msg{"/x", {vs(x)}}, Msg{"/y", {vs(y)}}, Msg{"/i", {vi('i', 1)}}}};
		CASE(vc::fmt("operators on text of %ld bytes", n), { Got g = run("/x + /y", b); CHECK(!g.e && g.v.size() == 1 && g.v[0].t == 's' && g.v[0].s == x + y, "joining text fails"); g = run("/i + /x", b); CHECK(!g.e && g.v.size() == 1 && g.v[0].t == 's' && g.v[0].s == "1" + x, "joining a number and text fails"); g = run("/x + /i", b); CHECK(!g.e && g.v.size() == 1 && g.v[0].s == x + "1", "joining text and a number fails");
			for(const char *op : {"==", "!=", "<", "<=", ">", ">="}){ int c = x < y ? -1 : x > y ? 1 : 0; bool w = !strcmp(op, "==") ? c == 0 : !strcmp(op, "!=") ? c != 0 : !strcmp(op, "<") ? c < 0 : !strcmp(op, "<=") ? c <= 0 : !strcmp(op, ">") ? c > 0 : c >= 0; g = run(std::string("/x ") + op + " /y", b); if(!strcmp(op, "==") || !strcmp(op, "!=")) CHECK(!g.e && g.v.size() == 1 && g.v[0].t == (w ? 'T' : 'F'), "comparing text with %s fails", op); } live(); });
		CASE(vc::fmt("a text constant of %ld bytes", n), { Got g = run("/z = \"" + x + "\"", b); Bndl r; CHECK(!g.e && dec(&g.b[0], g.b.size(), r) && r.m.size() == 4 && r.m[3].v[0].s == x, "assigning it fails"); live(); });
		CASE(vc::fmt("an address of %ld bytes in an expression", n), { Got g = run("/" + x + " = 5, 1", b); Bndl r; CHECK(!g.e && dec(&g.b[0], g.b.size(), r) && r.m.size() == 4 && r.m[3].a == "/" + x, "assigning to it fails"); Bndl q{0, {Msg{"/" + x, {vi('i', 4)}}}}; g = run("/" + x + " + 1", q); CHECK(!g.e && g.v.size() == 1 && g.v[0].i == 5, "reading it fails"); live(); });
	}
	for(long n : sizes()) CASE(vc::fmt("functions of text of %ld bytes", n), { std::string x = big(n), y = big(n, "zyxw "); Bndl b{0, {Msg{"/x", {vs(x)}}, Msg{"/y", {vs(y)}}, Msg{"/i", {vi('i', 1)}}, Msg{"/b", {vb(Bndl{0, {Msg{"/s", {vs(x)}}}})}}, Msg{"/c", {vb(Bndl{0, {Msg{"/s", {vs(y)}}}})}}, Msg{"/l", {vblob(x)}}}};
		auto one = [&](const char *t, const Val &w){ Got g = run(t, b); CHECK(!g.e && g.v.size() == 1, "%s fails", t); CHECK(eq(g.v[0], w), "%s gives another value", t); vc::trans(); };
		one("strlen(/x)", vi('h', n)); one("strcmp(/x, /x)", vi('i', 0)); one("strfind(\"~\", /x + \"~\")", vi('h', n)); one("string(/x)", vs(x)); one("join(\"-\", /x, /y)", vs(x + "-" + y)); one("strchar(list(0, 1), /x)", vs(x.substr(0, 2))); one("/b == /b", vt('T')); one("/b == /c", vt('F')); one("/b != /b", vt('F')); one("/b != /c", vt('T')); one("first(/x)", vs(x)); one("length(/x)", vi('i', 1)); one("nth(/l, 3)", vi('c', x[3])); one("length(blob(/b))", vi('i', 1)); 
		if(n <= 100000){ Got g = run("split(\" \", /y)", b); size_t k = 0; std::string w; std::vector<std::string> ws; for(char c : y + " ") if(c == ' '){ if(w.size()) ws.push_back(w); w.clear(); } else w += c; CHECK(!g.e && g.v.size() == ws.size(), "split gives %zu pieces", g.v.size()); for(; k < ws.size(); k++) CHECK(g.v[k].s == ws[k], "split gives other pieces"); }
		for(const char *t : {"strtotime(/x)", "/x - /i", "/x * /i", "/i - /x", "/b < /x", "/x / 2", "/b + /l", "bundle(/l)", "tokenize(/x)", "eval(/x)", "nth(/x, 99)", "cross(/x, /x)", "bitand(/x, /x)"}){ Got g = run(t, b); CHECK(g.b == enc(b), "%s changes the bundle", t); vc::trans(); }
		for(const char *t : {"++\"%\" = 1", "--\"%\" = 1", "\"%\"++ = 1", "\"%\"-- = 1", "/%", "nofunction(\"%\")", "% + ", "\"%\" = 3", "%(1)"}){ std::string e = t; size_t p = e.find('%'); e = e.substr(0, p) + x + e.substr(p + 1) + '\0'; small([&]{ Buf c(e); t_osc_expr *f = NULL; osc_expr_parser_parseExpr(c.p, &f, NULL); osc_expr_free(f); t_osc_bndl_u *u = NULL; osc_parser_parseString(c.n - 1, c.p, &u); if(u) osc_bundle_u_free(u); long l = 0; char *q = NULL; osc_expr_getFunctionsForCategory(c.p, &l, &q); if(q) osc_mem_free(q); }); vc::trans(3); }
		live(); });
	for(int n : {1000, 20000, 70000}) CASE(vc::fmt("the hull of %d points, and matching %d addresses", n, n), { std::vector<Val> p; for(int k = 0; k < n; k++){ double x = (k * 37) % 1009, y = (k * 101) % 997; if(k == 5){ x = -2000; y = 0; } if(k == 7){ x = 2000; y = 0; } if(k == n - 1){ x = 0; y = 3000; } if(k == n / 2){ x = 0; y = -3000; } p.push_back(vd('d', x)); p.push_back(vd('d', y)); } Bndl b{0, {Msg{"/p", p}}}; Got g = run("quickhull(/p)", b); CHECK(!g.e && g.v.size() == 8, "the hull of four corners and %d inner points has %zu numbers", n - 4, g.v.size());
		Bndl m{0, {Msg{"/a", {}}}}; for(int k = 0; k < n; k++) m.m[0].v.push_back(vs(k % 3 ? "/x" : "/y")); g = run("match(\"/y\", /a)", m); CHECK(!g.e && g.v.size() == 1 && g.v[0].t == '.' && g.v[0].b->m.size() == 4 && (int)g.v[0].b->m[1].v.size() == (n + 2) / 3 && (int)g.v[0].b->m[3].v.size() == n - (n + 2) / 3, "match finds other addresses"); live(); });
	// functions and operators on long lists
	for(long n : vc::tier ? std::vector<long>{1000, 70000, 140000} : std::vector<long>{1000, 70000}){ auto E = std::make_shared<std::string>(); auto A = std::make_shared<std::vector<L>>();
		auto list = [](long n, int mul, int off){ L l; for(long k = 0; k < n; k++) l.push_back(vi('i', (k * mul) % 997 + off)); return l; };
		auto prep = [=](){ if(E->empty()){ A->push_back(list(n, 7919, -400)); A->push_back(list(n, 31, 1)); A->push_back(L{vi('i', -3)}); A->push_back(L{vi('i', 500)}); *E = enc(Bndl{0, {Msg{"/a", (*A)[0]}, Msg{"/b", (*A)[1]}, Msg{"/c", (*A)[2]}, Msg{"/d", (*A)[3]}, Msg{"/s", {vs(" ")}}}}); } };
		auto ev = [=](const std::string &t){ Got g = on(t, *E); CHECK(!g.e, "%s is an error on %ld numbers", t.c_str(), n); vc::trans(); return g; };
		auto same = [=](const std::string &t, const L &w, const L &g){ CHECK(w.size() == g.size(), "%s gives %zu values, want %zu, on %ld numbers", t.c_str(), g.size(), w.size(), n); for(size_t k = 0; k < w.size(); k++) if(!eqw(w[k], g[k])) CHECK((isflt(w[k].t) || isflt(g[k].t)) && (fabs(toD(w[k]) - toD(g[k])) <= 1e-9 * (1 + fabs(toD(w[k]))) || (toD(w[k]) != toD(w[k]) && toD(g[k]) != toD(g[k]))), "%s: value %zu is %s, want %s, on %ld numbers", t.c_str(), k, str(g[k]).c_str(), str(w[k]).c_str(), n); };
		for(auto &a : ARITY){ std::string fn = a.n; if(!isalpha(fn[0])) continue; if(fn == "det" || fn == "nfill" || fn == "aseq" || fn == "product" || fn == "cross") continue;
			for(int c : std::set<int>{a.r, a.r ? a.r : 1, a.o < 0 ? a.r + 2 : a.r}){ if(c < 1 || c > 3 || (c != a.r && a.o == 0)) continue; std::vector<L> probe(c, L{vi('i', 2)}); if(fn == "clip") ; L r; try{ if(!callOp(fn, probe, r) && !callList(fn, probe, r)) continue; }catch(EErr &){ continue; }catch(Skip &){ continue; }catch(Soft &){ continue; }
				CASE(vc::fmt("%s of %d lists of %ld numbers", fn.c_str(), c, n), { prep(); std::vector<L> x; std::string t = fn + "("; bool small = fn == "clip" || fn == "strchar"; for(int k = 0; k < c; k++){ int w = small && k ? k + 1 : k % 2; if(fn == "nth") w = k ? 1 : 0; if(fn == "join") w = k ? 1 : 2; x.push_back((*A)[w]); t += std::string(k ? ", /" : "/") + (char)('a' + w); } t += ")"; L want; try{ if(!callOp(fn, x, want)) callList(fn, x, want); same(t, want, ev(t).v); }catch(EErr &){ }catch(Skip &){ }catch(Soft &){ } live(); }); } }
		for(std::string op : {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&", "|"}) CASE(vc::fmt("%s of two lists of %ld numbers", op.c_str(), n), { prep(); for(auto &q : {std::pair<int, int>{0, 1}, {0, 2}, {2, 0}}){ L want; callOp(op, {(*A)[q.first], (*A)[q.second]}, want); std::string t = vc::fmt("/%c %s /%c", 'a' + q.first, op.c_str(), 'a' + q.second); same(t, want, ev(t).v); } live(); });
		CASE(vc::fmt("sorting %ld numbers", n), { prep(); L w = (*A)[0]; std::stable_sort(w.begin(), w.end(), sortLess); same("sort(/a)", w, ev("sort(/a)").v); L x = ev("sortidx(/a)").v; CHECK((long)x.size() == n, "sortidx gives %zu indexes", x.size()); std::vector<char> seen(n); for(long k = 0; k < n; k++){ long i = toI<int64_t>(x[k]); CHECK(i >= 0 && i < n && !seen[i], "sortidx gives %ld", i); seen[i] = 1; CHECK(eq((*A)[0][i], w[k]), "sortidx gives another order"); } live(); });
		CASE(vc::fmt("branches and loops over %ld numbers", n), { prep(); const L &a = (*A)[0]; L w{vi('i', 1)}; same("if(/a < 0, 1, 2)", w, ev("if(/a < 0, 1, 2)").v); same("/a < 0 ? 1 : 2", w, ev("/a < 0 ? 1 : 2").v);
			{ w.clear(); for(auto &v : a) w.push_back(vi('i', v.i + 1)); same("map", w, ev("map(lambda([x], x + 1), /a)").v); int64_t s = 0; for(auto &v : a) s += v.i; same("lreduce", {vi('i', s)}, ev("lreduce(lambda([x, y], x + y), /a, 0)").v); same("rreduce", {vi('i', s)}, ev("rreduce(lambda([x, y], x + y), /a, 0)").v); }
			w = list(n, 1, 0); for(long k = 0; k < n; k++) w[k] = vi('i', k); same("aseq", w, ev(vc::fmt("aseq(0, %ld)", n - 1)).v); same("nfill", L(n, vi('i', 7)), ev(vc::fmt("nfill(%ld, 7)", n)).v); same("apply", {(*A)[0]}, ev("apply(quote(list), /a)").v); same("lambda", a, ev("apply(lambda([x], x), /a)").v); live(); });
		CASE(vc::fmt("assignments of %ld numbers", n), { prep(); Bndl r; Got g = ev("/z = /a"); CHECK(dec(&g.b[0], g.b.size(), r) && r.m.size() == 6 && r.m[5].a == "/z", "/z = /a"); same("/z = /a", (*A)[0], r.m[5].v); g = ev("/c = /a"); CHECK(dec(&g.b[0], g.b.size(), r) && r.m.size() == 5, "/c = /a"); for(auto &m : r.m) if(m.a == "/c") same("/c = /a", (*A)[0], m.v); g = ev("/a += /b"); CHECK(dec(&g.b[0], g.b.size(), r) && r.m.size() == 5, "/a += /b"); L w; callOp("+", {(*A)[0], (*A)[1]}, w); for(auto &m : r.m) if(m.a == "/a") same("/a += /b", w, m.v);
			long many = std::min(n, 20000l); g = ev(vc::fmt("/a[[aseq(0, %ld)]] = 9", many - 1)); CHECK(dec(&g.b[0], g.b.size(), r) && r.m.size() == 5, "/a[[...]] = 9"); w = (*A)[0]; for(long k = 0; k < many; k++) w[k] = vi('i', 9); for(auto &m : r.m) if(m.a == "/a") same("/a[[...]] = 9", w, m.v); w.clear(); for(long k = 0; k < n; k++) w.push_back((*A)[0][(*A)[1][k].i < n ? (*A)[1][k].i : 0]); if(n >= 1000) same("/a[[/b]]", w, ev("/a[[/b]]").v); g = ev("delete(/a)"); CHECK(dec(&g.b[0], g.b.size(), r) && r.m.size() == 4, "delete(/a)"); live(); });
		CASE(vc::fmt("text from %ld numbers", n), { prep(); L s; for(auto &v : (*A)[0]) s.push_back(vs(vc::fmt("%ld", (long)v.i))); same("string(/a)", s, ev("string(/a)").v); std::string j; for(auto &v : s) j += (j.empty() ? "" : " ") + v.s; same("join(/s, /a)", {vs(j)}, ev("join(/s, /a)").v); std::string x = vc::fmt("split(/s, join(/s, /a))"); same(x, s, ev(x).v); same("strlen", {vi('h', j.size())}, ev("strlen(join(/s, /a))").v); size_t c = std::count(j.begin(), j.end(), ' '); CHECK(ev("strfind(/s, join(/s, /a))").v.size() == c, "strfind finds another number of spaces"); live(); });
	}
	for(long n : {100l, 3000l, 20000l}) CASE(vc::fmt("functions over a bundle of %ld addresses", n), { Bndl b{0, {}}; for(long k = 0; k < n; k++) b.m.push_back(Msg{vc::fmt("/m/%ld", k), {vi('i', k)}}); Got g = run("getaddresses()", b); CHECK(!g.e && (long)g.v.size() == n, "getaddresses gives %zu", g.v.size()); g = run("getmsgcount()", b); CHECK(!g.e && g.v.size() == 1 && g.v[0].i == n, "getmsgcount"); if(n <= 3000){ std::string t = "list("; for(long k = 0; k < n; k++) t += vc::fmt("%s/m/%ld", k ? ", " : "", k); t += ")"; g = run(t, b); CHECK(!g.e && (long)g.v.size() == n && g.v[n - 1].i == n - 1, "list of %ld arguments gives %zu values", n, g.v.size()); t = "1"; long c = std::min(n, 200l); for(long k = 0; k < c; k++) t += " + 1"; g = run(t, b); CHECK(!g.e && g.v.size() == 1 && g.v[0].i == c + 1, "a chain of additions"); } live(); });
}
