// C06: a message under every edit history equals a plain list under the same edits
#include "ref.hpp"
const char *PROP = "C06";
enum { APP_I, APP_S, PRE_I, PRE_S, INS_M1, INS_0, INS_1, INS_2, INS_3, INS_LAST, INS_N, INS_FAR, DEL_0, DEL_MID, DEL_LAST, MV_APP, MV_PRE, MV_INS, ADDR_SHORT, ADDR_LONG, ADDR_BAD, ADDR_NULL, CLEAR, COPY_OVER, COPY_NEW, COPY_SELF, ARR, SWAP, NOPS };
static const char *NAMES[] = {"append int","append text","prepend int","prepend text","insert at -1","insert at 0","insert at 1","insert at 2","insert at 3","insert before last","insert at end","insert past end","remove first","remove middle","remove last","move first to the other's end","move last to the other's front","move middle into the other","short address","long address","invalid address","no address","clear","copy over the other","copy to new","copy onto itself","append the other's arguments as array","swap"};
static int depth(){ return vc::tier ? 5 : 4; }
std::string bounds(){ return vc::fmt("two messages, %d edits, every sequence of 1..%d edits with full observation after each; plus every typed append/prepend/insert at every position of messages of 0..4 arguments; every change of address length up to %d; chains of up to 5 messages; messages growing one argument at a time to %d arguments by 12 ways of adding and shrinking to none by 6 ways of taking out", NOPS, depth(), vc::tier ? 40 : 20, vc::tier ? 1100 : 300); }
void warmup(){}
struct St { t_osc_msg_u *u; Msg m; bool addr; };
static void observe(const St &s, const char *w){
	t_osc_msg_u *u = s.u; int n = s.m.v.size();
	char *a = osc_message_u_getAddress(u);
	CHECK(s.addr ? a && s.m.a == a : !a, "%s has address %s, want %s", w, a ? a : "(none)", s.addr ? s.m.a.c_str() : "(none)");
	CHECK(osc_message_u_getArgCount(u) == n, "%s counts %d arguments, want %d", w, osc_message_u_getArgCount(u), n);
	t_osc_msg_it_u *it = osc_msg_it_u_get(u); std::vector<t_osc_atom_u *> at;
	while(osc_msg_it_u_hasNext(it)){ t_osc_atom_u *x = osc_msg_it_u_next(it); CHECK((int)at.size() < n, "%s iterates over more than %d arguments", w, n); Val r = rdV(x); CHECK(eq(r, s.m.v[at.size()]), "%s argument %zu is %s, want %s", w, at.size(), str(r).c_str(), str(s.m.v[at.size()]).c_str()); at.push_back(x); }
	CHECK((int)at.size() == n, "%s iterates over %zu arguments, want %d", w, at.size(), n);
	osc_msg_it_u_reset(it); if(n){ CHECK(osc_msg_it_u_next(it) == at[0], "%s: a reset iterator does not restart", w); }
	osc_msg_it_u_destroy(it);
	for(int k = -2; k < n + 3; k++){ t_osc_atom_u *x = osc_message_u_getArg(u, k); CHECK(x == (k < 0 || k >= n ? NULL : at[k]), "%s: argument %d of %d is not the one iteration gives", w, k, n); }
	if(s.addr){
		std::string e = enc(s.m); std::string full; be(full, e.size(), 4); full += e;
		CHECK(osc_message_u_getSerializedSize(u) == (long)full.size(), "%s: encoded size %ld, want %zu", w, osc_message_u_getSerializedSize(u), full.size());
		Buf b(full.size()); CHECK(osc_message_u_nserialize(b.p, b.n, u) == full.size() && b.s() == full, "%s encodes as %s, want %s", w, vc::hex(b.p, b.n).c_str(), vc::hex(full.data(), full.size()).c_str());
	}
	vc::trans();
}
static int ctr;
static void apply(int op, St &A, St &B, std::vector<St> &fresh){
	int n = A.m.v.size(); auto &v = A.m.v; t_osc_msg_u *u = A.u;
	auto ins = [&](int pos){ ctr++; osc_message_u_insertInt32(u, ctr, pos); v.insert(v.begin() + std::min(std::max(pos, 0), n), vi('i', ctr)); };
	auto take = [&](int k){ t_osc_atom_u *a = osc_message_u_getArg(u, k); osc_message_u_removeAtom(u, a); v.erase(v.begin() + k); return a; };
	switch(op){
	case APP_I: osc_message_u_appendInt32(u, ++ctr); v.push_back(vi('i', ctr)); break;
	case APP_S: { std::string t = vc::fmt("s%d", ++ctr); osc_message_u_appendString(u, t.c_str()); v.push_back(vs(t)); break; }
	case PRE_I: osc_message_u_prependInt32(u, ++ctr); v.insert(v.begin(), vi('i', ctr)); break;
	case PRE_S: { std::string t = vc::fmt("s%d", ++ctr); osc_message_u_prependString(u, &t[0]); v.insert(v.begin(), vs(t)); break; }
	case INS_M1: ins(-1); break; case INS_0: ins(0); break; case INS_1: ins(1); break; case INS_2: ins(2); break; case INS_3: ins(3); break;
	case INS_LAST: ins(n - 1); break; case INS_N: ins(n); break; case INS_FAR: ins(n + 3); break;
	case DEL_0: if(n) osc_atom_u_free(take(0)); break;
	case DEL_MID: if(n) osc_atom_u_free(take(n / 2)); break;
	case DEL_LAST: if(n) osc_atom_u_free(take(n - 1)); break;
	case MV_APP: if(n){ B.m.v.push_back(v[0]); osc_message_u_appendAtom(B.u, take(0)); } break;
	case MV_PRE: if(n){ B.m.v.insert(B.m.v.begin(), v[n - 1]); osc_message_u_prependAtom(B.u, take(n - 1)); } break;
	case MV_INS: if(n){ int p = B.m.v.size() / 2; B.m.v.insert(B.m.v.begin() + p, v[n / 2]); osc_message_u_insertAtom(B.u, take(n / 2), p); } break;
	case ADDR_SHORT: { Buf b(std::string("/a\0", 3)); CHECK(osc_message_u_setAddress(u, b.p) == OSC_ERR_NONE, "setting an address failed"); A.m.a = "/a"; A.addr = true; break; }
	case ADDR_LONG: { Buf b(std::string("/a/longer/address") + '\0'); CHECK(osc_message_u_setAddress(u, b.p) == OSC_ERR_NONE, "setting an address failed"); A.m.a = "/a/longer/address"; A.addr = true; break; }
	case ADDR_BAD: CHECK(osc_message_u_setAddress(u, "noslash") != OSC_ERR_NONE, "an address without leading slash was accepted"); break;
	case ADDR_NULL: osc_message_u_setAddress(u, NULL); A.addr = false; A.m.a.clear(); break;
	case CLEAR: osc_message_u_clearArgs(u); v.clear(); break;
	case COPY_OVER: osc_message_u_deepCopy(&B.u, u); B.m = A.m; B.addr = A.addr; break;
	case COPY_NEW: { St c{NULL, A.m, A.addr}; osc_message_u_deepCopy(&c.u, u); fresh.push_back(c); break; }
	case COPY_SELF: { t_osc_msg_u *p = u; osc_message_u_deepCopy(&p, u); break; }
	case ARR: { if(v.size() > 40) break; t_osc_array *ar = osc_message_u_getArgArrayCopy(B.u); osc_message_u_setArgArrayCopy(u, ar); osc_atom_array_u_free(ar); auto c = B.m.v; v.insert(v.end(), c.begin(), c.end()); break; }
	case SWAP: std::swap(A, B); break;
	}
}
static void seq(const std::vector<int> &s){
	ctr = 0;
	St A{osc_message_u_alloc(), Msg(), false}, B{osc_message_u_allocWithAddress((char *)"/b"), Msg{"/b", {}}, true}; std::vector<St> fresh;
	for(int i = 0; i < 2; i++){ osc_message_u_appendInt32(B.u, 100 + i); B.m.v.push_back(vi('i', 100 + i)); }
	for(int op : s){ apply(op, A, B, fresh); observe(A, "the message"); observe(B, "the other message"); for(auto &f : fresh) observe(f, "a copy"); vc::state((A.addr ? "" : "!") + str(A.m) + "|" + (B.addr ? "" : "!") + str(B.m)); }
	osc_message_u_free(A.u); for(auto &f : fresh) observe(f, "a copy, after freeing the original");
	osc_message_u_free(B.u); for(auto &f : fresh) osc_message_u_free(f.u);
	CHECK(vc::live() == 0, "after freeing every message, %ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
static void rec(std::vector<int> &s, int left){
	if(!left){ try{ seq(s); }catch(vc::Fail &f){ std::string d; for(int o : s) d += std::string(NAMES[o]) + "; "; vc::fail("%s%s", d.c_str(), f.msg.c_str()); } return; }
	for(int o = 0; o < NOPS; o++){ s.push_back(o); rec(s, left - 1); s.pop_back(); }
}
static t_osc_atom_u *put(t_osc_msg_u *m, const Val &v, int how, int pos){
	if(how == 0) return addV(m, v);
	std::string bb = v.t == 'b' ? blobbytes(v.s) : ""; std::string es = v.t == '.' ? enc(*v.b) : ""; char *sp = (char *)v.s.c_str();
#define P(X, ...) return how == 1 ? osc_message_u_prepend##X(m, __VA_ARGS__) : osc_message_u_insert##X(m, __VA_ARGS__, pos)
	switch(v.t){
	case 'c': P(Int8, v.i); case 'C': P(UInt8, v.i); case 'u': P(Int16, v.i); case 'U': P(UInt16, v.i); case 'i': P(Int32, v.i); case 'I': P(UInt32, v.i); case 'h': P(Int64, v.i); case 'H': P(UInt64, v.i);
	case 'f': P(Float, v.d); case 'd': P(Double, v.d); case 's': P(String, sp); case 'b': P(Blob, &bb[0]); case 't': P(Timetag, mktt(v.i));
	case '.': P(Bndl_u, mkB(*v.b));
	case 'T': return how == 1 ? osc_message_u_prependTrue(m) : osc_message_u_insertTrue(m, pos);
	case 'F': return how == 1 ? osc_message_u_prependFalse(m) : osc_message_u_insertFalse(m, pos);
	case 'N': return how == 1 ? osc_message_u_prependNil(m) : osc_message_u_insertNil(m, pos);
	}
#undef P
	abort();
}
// messages growing and shrinking one argument at a time
static void grow(int up, int down, int N){
	ctr = 0; St A{osc_message_u_allocWithAddress((char *)"/grow"), Msg{"/grow", {}}, true}, B{osc_message_u_allocWithAddress((char *)"/b"), Msg{"/b", {}}, true}; std::vector<St> fresh;
	auto cnt = [&](){ CHECK(osc_message_u_getArgCount(A.u) == (int)A.m.v.size(), "the message counts %d arguments, want %zu", osc_message_u_getArgCount(A.u), A.m.v.size()); };
	for(int n = 1; n <= N; n++){ apply(up, A, B, fresh); cnt(); if(vc::look(n)) observe(A, "the growing message"); if(n == N / 2) apply(COPY_NEW, A, B, fresh); }
	apply(COPY_NEW, A, B, fresh); apply(COPY_OVER, A, B, fresh); observe(B, "the message copied over"); for(auto &f : fresh) observe(f, "a copy");
	for(int n = N - 1; n >= 0; n--){ apply(down, A, B, fresh); cnt(); if(vc::look(n)){ observe(A, "the shrinking message"); if(down >= MV_APP) observe(B, "the other message"); } }
	apply(up, A, B, fresh); observe(A, "the message grown again"); observe(B, "the other message"); for(auto &f : fresh) observe(f, "a copy");
	apply(CLEAR, B, A, fresh); observe(B, "a long message cleared"); apply(up, B, A, fresh); observe(B, "a long message cleared and extended");
	osc_message_u_free(A.u); osc_message_u_free(B.u); for(auto &f : fresh) osc_message_u_free(f.u);
	CHECK(vc::live() == 0, "after freeing every message, %ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	int GN = vc::tier ? 1100 : 300;
	for(int up : {APP_I, APP_S, PRE_I, PRE_S, INS_M1, INS_0, INS_1, INS_2, INS_3, INS_LAST, INS_N, INS_FAR}) for(int down : {DEL_0, DEL_MID, DEL_LAST, MV_APP, MV_PRE, MV_INS}) CASE(vc::fmt("growing to %d arguments: %s, then %s", GN, NAMES[up], NAMES[down]), { grow(up, down, GN); });
	std::vector<int> s; int D = depth();
	for(int l = 1; l < D; l++) if(l <= 2){ std::function<void(int)> go = [&](int left){ if(!left){ std::string d; for(int o : s) d += std::string(NAMES[o]) + "; "; CASE(d, { seq(s); }); return; } for(int o = 0; o < NOPS; o++){ s.push_back(o); go(left - 1); s.pop_back(); } }; go(l); }
	int pre = D - 2;
	std::function<void(int)> go = [&](int left){ if(!left){ std::string d; for(int o : s) d += std::string(NAMES[o]) + "; "; CASE(d + "* *", { std::vector<int> t = s; rec(t, 2); }); return; } for(int o = 0; o < NOPS; o++){ s.push_back(o); go(left - 1); s.pop_back(); } };
	go(pre);
	// every typed append/prepend/insert into messages of 0..4 arguments
	std::vector<Val> all; for(const char *t = ALLT; *t; t++) for(auto &v : valsOf(*t, vc::tier)) all.push_back(v);
	all.push_back(vb(Bndl{0, {Msg{"/s", {vi('i', 5), vs("q")}}}}));
	for(auto &v : all) for(int n = 0; n < 5; n++) for(int how = 0; how < 3; how++) for(int pos = how == 2 ? -1 : 0; pos <= (how == 2 ? n + 1 : 0); pos++)
		CASE(vc::fmt("%s %s into %d arguments at %d", how == 0 ? "append" : how == 1 ? "prepend" : "insert", str(v).c_str(), n, pos), {
			St A{osc_message_u_allocWithAddress((char *)"/x"), Msg{"/x", {}}, true};
			for(int k = 0; k < n; k++){ osc_message_u_appendInt32(A.u, k); A.m.v.push_back(vi('i', k)); }
			t_osc_atom_u *a = put(A.u, v, how, pos);
			int at = how == 0 ? n : how == 1 ? 0 : std::min(std::max(pos, 0), n);
			A.m.v.insert(A.m.v.begin() + at, v); observe(A, "the message");
			CHECK(osc_message_u_getArg(A.u, at) == a, "the returned cell is not the one stored");
			osc_message_u_free(A.u); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
			vc::state(str(A.m));
		});
	// encoded sub-bundles, booleans, pointers to text, ready-made messages
	for(int how = 0; how < 3; how++) CASE(vc::fmt("encoded sub-bundle, booleans and text pointers, way %d", how), {
		Bndl sb{0, {Msg{"/s", {vi('i', 5), vs("q")}}}}; Buf e(enc(sb)); char t[] = "outside";
		St A{osc_message_u_allocWithAddress((char *)"/x"), Msg{"/x", {vi('i', 1), vi('i', 2)}}, true}; osc_message_u_appendInt32(A.u, 1); osc_message_u_appendInt32(A.u, 2); auto &v = A.m.v;
		auto at = [&]{ return how == 0 ? v.end() : how == 1 ? v.begin() : v.begin() + 1; };
		how == 0 ? osc_message_u_appendBndl_s(A.u, e.n, e.p) : how == 1 ? osc_message_u_prependBndl_s(A.u, e.n, e.p) : osc_message_u_insertBndl_s(A.u, e.n, e.p, 1); v.insert(at(), vb(sb)); observe(A, "after encoded sub-bundle");
		how == 0 ? osc_message_u_appendBndl(A.u, e.n, e.p) : how == 1 ? osc_message_u_prependBndl(A.u, e.n, e.p) : osc_message_u_insertBndl(A.u, e.n, e.p, 1); v.insert(at(), vb(sb)); observe(A, "after encoded sub-bundle");
		for(int b : {0, 1, 2, -1}){ how == 0 ? osc_message_u_appendBool(A.u, b) : how == 1 ? osc_message_u_prependBool(A.u, b) : osc_message_u_insertBool(A.u, b, 1); v.insert(at(), vt(b ? 'T' : 'F')); observe(A, "after boolean"); }
		how == 0 ? osc_message_u_appendStringPtr(A.u, t) : how == 1 ? osc_message_u_prependStringPtr(A.u, t) : osc_message_u_insertStringPtr(A.u, t, 1); v.insert(at(), vs(t)); observe(A, "after text pointer");
		osc_message_u_free(A.u); CHECK(!strcmp(t, "outside"), "borrowed text changed"); CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
	CASE("ready-made messages", {
		struct { t_osc_msg_u *u; Msg m; } c[] = {
			{osc_message_u_allocWithAddress((char *)"/m"), Msg{"/m", {}}}, {osc_message_u_allocWithFloat((char *)"/m", 1.5), Msg{"/m", {vd('f', 1.5)}}}, {osc_message_u_allocWithDouble((char *)"/m", .1), Msg{"/m", {vd('d', .1)}}},
			{osc_message_u_allocWithInt((char *)"/m", -7), Msg{"/m", {vi('i', -7)}}}, {osc_message_u_allocWithString((char *)"/m", (char *)"txt"), Msg{"/m", {vs("txt")}}}, {osc_message_u_allocWithTimetag((char *)"/m", mktt(77)), Msg{"/m", {vi('t', 77)}}}, {osc_message_u_allocWithBlob((char *)"/m", (char *)"\0\0\0\2ab"), Msg{"/m", {vblob("ab")}}}};
		for(auto &x : c){ observe(St{x.u, x.m, true}, "a ready-made message"); osc_message_u_free(x.u); }
		CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
	// every address length to every other, exactly sized blocks
	int ML = vc::tier ? 40 : 20;
	for(int a = 1; a <= ML; a++) CASE(vc::fmt("addresses of %d bytes and of every other length", a), { for(int b = 1; b <= ML; b++) for(int c : {1, b, b + 1, ML}){ St A{osc_message_u_alloc(), Msg(), false}; for(int n : {a, b, c}){ Buf x("/" + std::string(n - 1, 'a' + n % 26) + std::string(1, '\0')); CHECK(osc_message_u_setAddress(A.u, x.p) == OSC_ERR_NONE, "setting an address failed"); A.m.a = x.p; A.addr = true; observe(A, "the message"); } osc_message_u_free(A.u); CHECK(vc::live() == 0, "%ld blocks remain", vc::live()); vc::state(vc::fmt("%d>%d>%d", a, b, c)); } });
	// linked messages: every way of chaining up to five messages (and chains to chains); what a copy of a linked message is linked to
	for(int n = 2; n <= 5; n++){ int tot = 1; for(int k = 1; k < n; k++) tot *= k; CASE(vc::fmt("%d linked messages", n), { for(int x = 0; x < tot; x++) for(int way = 0; way < 2; way++){
		// step k appends message k (way 0), or the chain of messages k.. (way 1, built backwards), to any message that is already there
		std::vector<t_osc_msg_u *> m; for(int k = 0; k < n; k++){ m.push_back(osc_message_u_allocWithInt((char *)vc::fmt("/m%d", k).c_str(), k)); }
		int y = x; if(way == 0) for(int k = 1; k < n; k++){ osc_message_u_append(m[y % k], m[k]); y /= k; } else for(int k = n - 2; k >= 0; k--) osc_message_u_append(m[k], m[k + 1]);
		int i = 0; for(t_osc_msg_u *q = m[0]; q; q = osc_message_u_next(q), i++){ CHECK(i < n && q == m[i], "message %d of the chain is another one", i); observe(St{q, Msg{vc::fmt("/m%d", i), {vi('i', i)}}, true}, "a linked message"); } CHECK(i == n, "the chain has %d messages, want %d", i, n); vc::trans();
		for(int k = 0; k < n; k++){ t_osc_msg_u *c = NULL; osc_message_u_deepCopy(&c, m[k]); CHECK(!osc_message_u_next(c), "a copy of message %d of the chain is linked", k); observe(St{c, Msg{vc::fmt("/m%d", k), {vi('i', k)}}, true}, "a copy of a linked message"); osc_message_u_free(c);
			t_osc_msg_u *o = osc_message_u_allocWithInt((char *)"/o", 9); osc_message_u_deepCopy(&m[k], o); osc_message_u_free(o); CHECK(osc_message_u_next(m[k]) == (k + 1 < n ? m[k + 1] : NULL), "copying over message %d breaks the chain", k); observe(St{m[k], Msg{"/o", {vi('i', 9)}}, true}, "a linked message copied over"); }
		for(auto *q : m) osc_message_u_free(q); CHECK(vc::live() == 0, "%ld blocks remain", vc::live()); } }); }
	CASE("address pointer exchange", {
		St A{osc_message_u_allocWithAddress((char *)"/x"), Msg{"/x", {}}, true}; char *old = NULL, *n = (char *)osc_mem_alloc(5); strcpy(n, "/new");
		osc_message_u_setAddressPtr(A.u, n, &old); CHECK(old && !strcmp(old, "/x"), "old address not handed back"); osc_mem_free(old); A.m.a = "/new"; observe(A, "the message"); CHECK(osc_message_u_getAddress(A.u) == n, "address was copied");
		osc_message_u_free(A.u); CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
}
