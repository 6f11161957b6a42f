// C07: an in-memory bundle under every edit history equals a plain list of messages
#include "ref.hpp"
const char *PROP = "C07";
enum { ADD_A, ADD_B, ADD_SUB, ADD_NONE, NODUP_A, NODUP_B, REPL_A, REPL_C, ADDCP, NODUPCP, ADDARR, ADDLIST, RM_0, RM_MID, RM_LAST, RMA_A, RMA_B, RMA_X, CLEAR, COPY, MOVE, MOVE_ND, TOUCH, UNADDR, OVER_MID, OVER_OTHER, SWAP, NOPS };
static const char *NAMES[] = {"add /a","add /b","add /c with sub-bundle","add without address","add /a without duplicates","add /b without duplicates","replace /a","replace /c","add a copy of the other's first","add a copy of the other's last without duplicates","add the other's /a messages","add a list of two","take out first","take out middle","take out last","remove /a","remove /b","remove /x","clear","copy to new","move first to the other","move last to the other without duplicates","extend first message","rename first message","copy the last over the middle one", "copy the other's last over the first", "swap"};
static int depth(){ return vc::tier ? 5 : 4; }
std::string bounds(){ return vc::fmt("two bundles, %d edits, every sequence of 1..%d edits with full observation after each; bundles growing one message at a time to %d by 7 ways of adding and shrinking by 7 ways of taking out", NOPS, depth(), vc::tier ? 900 : 300); }
void warmup(){}
struct M { Msg m; bool addr = true; };
struct St { t_osc_bndl_u *u; std::vector<M> l; };
static int ctr;
static Msg mk(const char *a){ return Msg{a, {vi('i', ++ctr), vs(vc::fmt("t%d", ctr))}}; }
static std::string desc(const St &s){ std::string r; for(auto &m : s.l) r += (m.addr ? "" : "!") + str(m.m) + ";"; return r; }
static std::vector<t_osc_msg_u *> ptrs(t_osc_bndl_u *u){ std::vector<t_osc_msg_u *> r; t_osc_bndl_it_u *it = osc_bndl_it_u_get(u); while(osc_bndl_it_u_hasNext(it) && r.size() < 1000) r.push_back(osc_bndl_it_u_next(it)); osc_bndl_it_u_destroy(it); return r; }
static void collect(t_osc_msg_u *m, void *c){ ((std::vector<t_osc_msg_u *> *)c)->push_back(m); }
static void observe(const St &s, const char *w){
	size_t n = s.l.size(); CHECK(osc_bundle_u_getMsgCount(s.u) == (int)n, "%s counts %d messages, want %zu (%s)", w, osc_bundle_u_getMsgCount(s.u), n, desc(s).c_str());
	auto p = ptrs(s.u); CHECK(p.size() == n, "%s iterates over %zu messages, want %zu", w, p.size(), n);
	for(size_t k = 0; k < n; k++){ Msg r = rdM(p[k]); CHECK(eq(r, s.l[k].m) && !!osc_message_u_getAddress(p[k]) == s.l[k].addr, "%s message %zu is %s, want %s", w, k, str(r).c_str(), str(s.l[k].m).c_str()); }
	CHECK(osc_bundle_u_getFirstMsg(s.u) == (n ? p[0] : NULL), "%s: wrong first message", w);
	std::vector<t_osc_msg_u *> cb; osc_bundle_u_getMessagesWithCallback(s.u, collect, &cb); CHECK(cb == p, "%s: the callback sees other messages than the iterator", w);
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(s.u); while(osc_bndl_it_u_hasNext(it)) osc_bndl_it_u_next(it); osc_bndl_it_u_reset(it); CHECK(osc_bndl_it_u_hasNext(it) == (n > 0) && (!n || osc_bndl_it_u_next(it) == p[0]), "%s: a reset iterator does not restart", w); osc_bndl_it_u_destroy(it);
	for(const char *a : {"/a", "/b", "/c", "/x"}){
		std::vector<size_t> at; for(size_t k = 0; k < n; k++) if(s.l[k].addr && s.l[k].m.a == a) at.push_back(k);
		int e = -1; osc_bundle_u_addressExists(s.u, (char *)a, 1, &e); CHECK(e == !at.empty(), "%s: %s exists = %d", w, a, e);
		CHECK(osc_bundle_u_getFirstFullMatch(s.u, (char *)a) == (at.empty() ? NULL : p[at[0]]), "%s: wrong first match for %s", w, a);
	}
	Bndl b; for(auto &m : s.l) if(m.addr) b.m.push_back(m.m);
	std::string e = enc(b); Buf buf(e.size());
	CHECK(osc_bundle_u_getSerializedSize(s.u) == (long)e.size() && osc_bundle_u_nserialize(buf.p, buf.n, s.u) == e.size() && buf.s() == e, "%s encodes as %s, want %s", w, vc::hex(buf.p, buf.n).c_str(), vc::hex(e.data(), e.size()).c_str());
	vc::trans();
}
static void apply(int op, St &A, St &B, std::vector<St> &fresh){
	auto &l = A.l; int n = l.size(); t_osc_bndl_u *u = A.u;
	auto add = [&](const char *a){ Msg m = mk(a); osc_bundle_u_addMsg(u, mkM(m)); l.push_back(M{m}); };
	auto drop = [](std::vector<M> &l, const std::string &a){ for(size_t k = 0; k < l.size();) if(l[k].addr && l[k].m.a == a) l.erase(l.begin() + k); else k++; };
	auto nd = [&](const char *a){ Msg m = mk(a); osc_bundle_u_addMsgWithoutDups(u, mkM(m)); drop(l, a); l.push_back(M{m}); };
	auto repl = [&](const char *a){ Msg m = mk(a); osc_bundle_u_replaceMessage(u, mkM(m)); for(auto &x : l) if(x.addr && x.m.a == a){ x.m = m; return; } l.push_back(M{m}); };
	auto out = [&](int k){ t_osc_msg_u *m = ptrs(u)[k]; osc_bundle_u_removeMsg(u, m); l.erase(l.begin() + k); return m; };
	switch(op){
	case ADD_A: add("/a"); break; case ADD_B: add("/b"); break;
	case ADD_SUB: { Msg m{"/c", {vi('i', ++ctr), vb(Bndl{0, {Msg{"/s", {vi('i', ctr)}}}})}}; osc_bundle_u_addMsg(u, mkM(m)); l.push_back(M{m}); break; }
	case ADD_NONE: { t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_appendInt32(m, ++ctr); M x; x.m.v = {vi('i', ctr)}; x.addr = false; osc_bundle_u_addMsg(u, m); l.push_back(x); break; }
	case NODUP_A: nd("/a"); break; case NODUP_B: nd("/b"); break; case REPL_A: repl("/a"); break; case REPL_C: repl("/c"); break;
	case ADDCP: if(B.l.size()){ osc_bundle_u_addMsgCopy(u, ptrs(B.u)[0]); l.push_back(B.l[0]); } break;
	case NODUPCP: if(B.l.size()){ M x = B.l.back(); osc_bundle_u_addMsgWithoutDupsCopy(u, ptrs(B.u).back()); if(x.addr) drop(l, x.m.a); l.push_back(x); } break;
	case ADDARR: { t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(B.u, "/a", 1); osc_bundle_u_addMsgArrayCopy(u, ar); osc_message_array_u_free(ar); for(size_t k = 0, nb = B.l.size(); k < nb; k++) if(B.l[k].addr && B.l[k].m.a == "/a") l.push_back(B.l[k]); break; }
	case ADDLIST: { Msg x = mk("/a"), y = mk("/b"); t_osc_msg_u *p = mkM(x); osc_message_u_append(p, mkM(y)); osc_bundle_u_addMsgList(u, p); l.push_back(M{x}); l.push_back(M{y}); break; }
	case RM_0: if(n) osc_message_u_free(out(0)); break; case RM_MID: if(n) osc_message_u_free(out(n / 2)); break; case RM_LAST: if(n) osc_message_u_free(out(n - 1)); break;
	case RMA_A: osc_bundle_u_removeMessage(u, "/a"); drop(l, "/a"); break; case RMA_B: osc_bundle_u_removeMessage(u, "/b"); drop(l, "/b"); break; case RMA_X: osc_bundle_u_removeMessage(u, "/x"); break;
	case CLEAR: osc_bundle_u_clear(u); l.clear(); break;
	case COPY: { St c{NULL, {}}; osc_bundle_u_copy(&c.u, u); for(auto &m : l) if(m.addr) c.l.push_back(m); fresh.push_back(c); break; }
	case MOVE: if(n){ M x = l[0]; osc_bundle_u_addMsg(B.u, out(0)); B.l.push_back(x); } break;
	case MOVE_ND: if(n){ M x = l[n - 1]; osc_bundle_u_addMsgWithoutDups(B.u, out(n - 1)); if(x.addr) drop(B.l, x.m.a); B.l.push_back(x); } break;
	case TOUCH: if(n){ osc_message_u_appendInt32(ptrs(u)[0], ++ctr); l[0].m.v.push_back(vi('i', ctr)); } break;
	case UNADDR: if(n){ osc_message_u_setAddress(ptrs(u)[0], "/b"); l[0].m.a = "/b"; l[0].addr = true; } break;
	case OVER_MID: if(n > 1){ auto p = ptrs(u); osc_message_u_deepCopy(&p[n / 2 - (n == 2)], p[n - 1]); l[n / 2 - (n == 2)] = l[n - 1]; } break;
	case OVER_OTHER: if(n && B.l.size()){ auto p = ptrs(u); osc_message_u_deepCopy(&p[0], ptrs(B.u).back()); l[0] = B.l.back(); } break;
	case SWAP: std::swap(A, B); break;
	}
}
static void seq(const std::vector<int> &s){
	ctr = 0; St A{osc_bundle_u_alloc(), {}}, B{osc_bundle_u_alloc(), {}}; std::vector<St> fresh; std::vector<int> none;
	apply(ADD_A, B, A, fresh); apply(ADD_B, B, A, fresh);
	for(int op : s){ apply(op, A, B, fresh); observe(A, "the bundle"); observe(B, "the other bundle"); for(auto &f : fresh) observe(f, "a copy"); vc::state(desc(A) + "|" + desc(B)); }
	osc_bundle_u_free(A.u); observe(B, "the other bundle, after freeing the first"); for(auto &f : fresh) observe(f, "a copy, after freeing the original");
	osc_bundle_u_free(B.u); for(auto &f : fresh) osc_bundle_u_free(f.u);
	CHECK(vc::live() == 0, "after freeing every bundle, %ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static std::string text(const std::vector<int> &s){ std::string d; for(int o : s) d += std::string(NAMES[o]) + "; "; return d; }
static void rec(std::vector<int> &s, int left){
	if(!left){ try{ seq(s); }catch(vc::Fail &f){ vc::fail("%s%s", text(s).c_str(), f.msg.c_str()); } return; }
	for(int o = 0; o < NOPS; o++){ s.push_back(o); rec(s, left - 1); s.pop_back(); }
}
// bundles growing and shrinking one message at a time
static void grow(int up, int down, int N){
	ctr = 0; St A{osc_bundle_u_alloc(), {}}, B{osc_bundle_u_alloc(), {}}; std::vector<St> fresh; apply(ADD_B, B, A, fresh);
	auto cnt = [&](){ CHECK(osc_bundle_u_getMsgCount(A.u) == (int)A.l.size(), "the bundle counts %d messages, want %zu", osc_bundle_u_getMsgCount(A.u), A.l.size()); };
	for(int n = 1; n <= N; n++){ apply(up, A, B, fresh); if(up == NODUP_A){ apply(ADD_B, A, B, fresh); n++; } cnt(); if(vc::look(n)) observe(A, "the growing bundle"); if(n == N / 2) apply(COPY, A, B, fresh); }
	apply(COPY, A, B, fresh); for(auto &f : fresh) observe(f, "a copy");
	if(down == RMA_A || down == RMA_B){ apply(ADD_A, A, B, fresh); apply(ADD_B, A, B, fresh); apply(down, A, B, fresh); observe(A, "the bundle after removing an address"); apply(down == RMA_A ? RMA_B : RMA_A, A, B, fresh); observe(A, "the bundle after removing both addresses"); apply(ADDARR, A, fresh.back(), fresh); observe(A, "the bundle with the copies"); }
	else while(A.l.size()){ apply(down, A, B, fresh); cnt(); if(vc::look(A.l.size())){ observe(A, "the shrinking bundle"); if(down >= MOVE) observe(B, "the other bundle"); } }
	apply(up, A, B, fresh); observe(A, "the bundle grown again"); observe(B, "the other bundle"); for(auto &f : fresh) observe(f, "a copy");
	apply(CLEAR, B, A, fresh); observe(B, "a bundle cleared"); apply(CLEAR, fresh[0], A, fresh); observe(fresh[0], "a long bundle cleared"); apply(ADD_A, fresh[0], A, fresh); observe(fresh[0], "a long bundle cleared and extended");
	osc_bundle_u_free(A.u); osc_bundle_u_free(B.u); for(auto &f : fresh) osc_bundle_u_free(f.u);
	CHECK(vc::live() == 0, "after freeing every bundle, %ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	int GN = vc::tier ? 900 : 300;
	for(int up : {ADD_A, ADD_B, ADD_SUB, ADD_NONE, NODUP_A, ADDCP, ADDLIST}) for(int down : {RM_0, RM_MID, RM_LAST, RMA_A, RMA_B, MOVE, MOVE_ND}) CASE(vc::fmt("growing to %d messages: %s, then %s", GN, NAMES[up], NAMES[down]), { grow(up, down, GN); });
	std::vector<int> s; int D = depth();
	std::function<void(int, bool)> go = [&](int left, bool tail){ if(!left){ if(tail) CASE(text(s) + "* *", { std::vector<int> t = s; rec(t, 2); }); else CASE(text(s), { seq(s); }); return; } for(int o = 0; o < NOPS; o++){ s.push_back(o); go(left - 1, tail); s.pop_back(); } };
	go(1, false); go(2, false); go(D - 2, true);
}
