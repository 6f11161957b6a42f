// C03: readers of encoded data
#include "spaces.hpp"
const char *PROP = "C03";
std::string bounds(){ return vc::fmt("messages with parts of up to 200000 bytes; renamed copies between addresses of all lengths to %d; ", vc::tier ? 300 : 140) + spaceDesc(vc::tier) + growDesc(vc::tier ? 400 : 150) + "; each encoded by the reference encoder into an exactly sized block and read through every reader entry point, every argument index -2..count+2, plain and with cached offsets; all histories of up to " + (vc::tier ? "6" : "5") + " of 11 operations (wrapping, caching, copying, freeing) on two message objects"; }
void warmup(){}
static void cb(t_osc_msg_s *m, void *c){ ((std::vector<Msg> *)c)->push_back(rdMs(m)); }
static void checkVal(t_osc_atom_s *a, const Val &v, int j, const char *how){
	Val r = rdVs(a);
	CHECK(eq(r, v), "%s: argument %d is %s, want %s", how, j, str(r).c_str(), str(v).c_str());
	if(v.t == '.'){
		t_osc_bndl_s *c = osc_atom_s_getBndlCopy(a);
		Bndl rb = rdBs(osc_bundle_s_getLen(c), osc_bundle_s_getPtr(c));
		CHECK(eq(rb, *v.b, false), "sub-bundle copy is %s", str(rb).c_str());
	}
	if(v.t == 's'){
		CHECK(osc_atom_s_getStringLen(a) == (int)v.s.size(), "string length");
		char *o = NULL; int n = osc_atom_s_getString(a, 0, &o);
		CHECK(n == (int)v.s.size() && v.s == o, "string copy");
		Buf b(v.s.size() + 1); char *p = b.p; n = osc_atom_s_getString(a, b.n, &p);
		CHECK(n == (int)v.s.size() && p == b.p && v.s == b.p, "string copy into buffer");
	}
	if(v.t == 'b'){
		char *o = NULL; int32_t l = 0;
		CHECK(osc_atom_s_getBlobCopy(&o, &l, a) == OSC_ERR_NONE && o && l >= (int)v.s.size() + 4, "blob copy failed");
		CHECK(rbe(o, 4) == v.s.size() && !memcmp(o + 4, v.s.data(), v.s.size()), "blob copy differs");
		CHECK(osc_atom_s_getBlobLen(a) == (int)v.s.size(), "blob length");
	}
	CHECK(osc_atom_s_sizeof(a) == enc(v).size(), "size of argument %d", j);
	vc::trans();
}
static void checkMsg(t_osc_msg_s *m, const Msg &w, const char *how){
	std::string e = enc(w), tt = ","; for(auto &v : w.v) tt += v.t;
	CHECK(osc_message_s_getSize(m) == (int)e.size(), "%s: size %d, want %zu", how, osc_message_s_getSize(m), e.size());
	CHECK(osc_message_s_getAddress(m) && w.a == osc_message_s_getAddress(m), "%s: address", how);
	CHECK(rbe(osc_message_s_getPtr(m), 4) == e.size() && !memcmp(osc_message_s_getPtr(m) + 4, e.data(), e.size()), "%s: message bytes", how);
	CHECK(osc_message_s_getTypetags(m) && tt == osc_message_s_getTypetags(m), "%s: type string", how);
	CHECK(osc_message_s_getData(m) == osc_message_s_getAddress(m) + e.size() - [&]{ size_t s = 0; for(auto &v : w.v) s += enc(v).size(); return s; }(), "%s: data pointer", how);
	int n = w.v.size();
	CHECK(osc_message_s_getArgCount(m) == n, "%s: argument count %d, want %d", how, osc_message_s_getArgCount(m), n);
	t_osc_atom_s *reuse = NULL;
	for(int j = -2; j <= n + 2; j++){
		bool in = j >= 0 && j < n;
		char t = osc_message_s_getTypetag(m, j);
		CHECK(t == (in ? w.v[j].t : 0), "%s: type of argument %d is %d", how, j, t);
		t_osc_atom_s *a = NULL;
		osc_message_s_getArg(m, j, &a);
		CHECK(!!a == in, "%s: argument %d is %s", how, j, a ? "present" : "absent");
		if(in){
			checkVal(a, w.v[j], j, how);
			osc_message_s_getArg(m, j, &reuse); checkVal(reuse, w.v[j], j, how);
		}
		vc::trans(2);
	}
	t_osc_msg_it_s *it = osc_msg_it_s_get(m);
	for(int pass = 0; pass < 2; pass++){
		for(int j = 0; j < n; j++){ CHECK(osc_msg_it_s_hasNext(it), "%s: iteration ends at %d of %d", how, j, n); checkVal(osc_msg_it_s_next(it), w.v[j], j, how); }
		CHECK(!osc_msg_it_s_hasNext(it), "%s: iteration goes past the last argument", how);
		CHECK(!osc_msg_it_s_next(it), "%s: iteration yields an argument past the last", how);
		CHECK(!osc_msg_it_s_hasNext(it), "%s: iteration resumes after its end", how);
		osc_msg_it_s_reset(it);
	}
	if(n > 2){ // reset in the middle
		osc_msg_it_s_next(it); osc_msg_it_s_next(it); osc_msg_it_s_reset(it); checkVal(osc_msg_it_s_next(it), w.v[0], 0, "after reset");
	}
	osc_msg_it_s_destroy(it);
}
// histories of two message objects: what an object reads depends on the bytes it last wrapped or copied, not on what was cached or copied before
static void histories(){
	static std::vector<Msg> W; if(W.empty()) W = {Msg{"/a", {}}, Msg{"/ab", {vi('i', 7), vs("text"), vd('d', .5)}}, Msg{"/abc/d", {vs("longer text"), vi('h', -3), vi('T', 1), vi('c', 9)}}, Msg{"/none", {}}};
	static std::vector<Buf *> P; vc::track = false; if(P.empty()) for(size_t k = 0; k < W.size(); k++){ std::string e = k == 3 ? std::string("/none\0\0\0", 8) : enc(W[k]), s; be(s, e.size(), 4); P.push_back(new Buf(s + e)); } vc::track = true;
	const int NO = 11; static const char *ON[NO] = {"wrap 0 in A", "wrap 1 in A", "wrap 2 in A", "wrap the address-only message in A", "cache A", "cache B", "copy A to B", "copy B to A", "wrap 1 in B", "wrap 2 in B", "free B"};
	int depth = vc::tier ? 6 : 5;
	for(int f = 0; f < NO; f++) for(int g = 0; g < NO; g++) CASE(vc::fmt("message objects: %s, %s, ...", ON[f], ON[g]), {
		std::vector<int> h{f, g};
		std::function<void()> run = [&]{
			t_osc_msg_s *o[2] = {osc_message_s_alloc(), NULL}; int w[2] = {-1, -1}; std::string d; bool ok = true;
			for(int op : h){ d += ON[op]; d += ", ";
				if(op < 4){ osc_message_s_wrap(o[0], P[op]->p); w[0] = op; } else if(op == 4 || op == 5){ int k = op - 4; if(!o[k] || w[k] < 0 || w[k] == 3){ ok = false; break; } osc_message_s_cacheDataOffsets(o[k]); }
				else if(op == 6){ osc_message_s_copy(&o[1], o[0]); w[1] = w[0]; } else if(op == 7){ if(!o[1]){ ok = false; break; } osc_message_s_copy(&o[0], o[1]); w[0] = w[1]; } else if(op < 10){ if(!o[1]) o[1] = osc_message_s_alloc(); osc_message_s_wrap(o[1], P[op - 7]->p); w[1] = op - 7; } else { if(!o[1]){ ok = false; break; } osc_message_s_free(o[1]); o[1] = NULL; w[1] = -1; } vc::trans(); }
			if(ok) for(int k = 0; k < 2; k++) if(o[k] && w[k] >= 0){ const Msg &m = W[w[k]]; int n = m.v.size(); CHECK(m.a == osc_message_s_getAddress(o[k]) && osc_message_s_getArgCount(o[k]) == n, "%s%c reads another message", d.c_str(), 'A' + k);
				for(int j = n - 1; j >= 0; j--){ t_osc_atom_s *a = NULL; osc_message_s_getArg(o[k], j, &a); CHECK(a, "%sargument %d of %c is absent", d.c_str(), j, 'A' + k); { Val r = rdVs(a); CHECK(eq(r, m.v[j]), "%sargument %d of %c is %s", d.c_str(), j, 'A' + k, str(r).c_str()); } osc_atom_s_free(a); }
				t_osc_msg_it_s *it = osc_msg_it_s_get(o[k]); for(int j = 0; j < n; j++){ CHECK(osc_msg_it_s_hasNext(it), "%siteration of %c ends at %d", d.c_str(), 'A' + k, j); Val r = rdVs(osc_msg_it_s_next(it)); CHECK(eq(r, m.v[j]), "%sargument %d of %c is iterated as %s", d.c_str(), j, 'A' + k, str(r).c_str()); } CHECK(!osc_msg_it_s_hasNext(it), "%siteration of %c goes past the last argument", d.c_str(), 'A' + k); osc_msg_it_s_destroy(it);
				vc::state(vc::fmt("%d %d %d", w[0], w[1], k)); }
			osc_message_s_free(o[0]); osc_message_s_free(o[1]); };
		std::function<void()> rec = [&]{ long l0 = vc::live(); run(); CHECK(vc::live() == l0 || h.empty(), "after %s... %ld blocks remain: %s", ON[h.back()], vc::live() - l0, vc::live_desc().c_str()); if((int)h.size() == depth) return; for(int k = 0; k < NO; k++){ h.push_back(k); rec(); h.pop_back(); } };
		rec();
	});
}
static void bndl(const Bndl &b0){
			Bndl b = b0; b.tt = 0xfedcba9876543210ull;
			std::string e = enc(b); vc::state(e);
			Buf buf(e);
			t_osc_bndl_s *s = osc_bundle_s_alloc(buf.n, buf.p);
			CHECK(osc_bundle_s_getLen(s) == (long)buf.n && osc_bundle_s_getPtr(s) == buf.p, "wrapper");
			CHECK(!osc_bundle_s_strcmpID(buf.p), "bundle id not recognised");
			CHECK(rdtt(osc_bundle_s_getTimetag(buf.n, buf.p)) == b.tt, "timetag %llx", (unsigned long long)rdtt(osc_bundle_s_getTimetag(buf.n, buf.p)));
			int c = -1; t_osc_err er = osc_bundle_s_getMsgCount(buf.n, buf.p, &c);
			CHECK(!er && c == (int)b.m.size(), "message count %d (error %llu)", c, (unsigned long long)er);
			std::vector<Msg> got; er = osc_bundle_s_getMessagesWithCallback(buf.n, buf.p, cb, &got);
			Bndl g; g.m = got; CHECK(!er && eq(g, b, false), "callback reader yields %s", str(g).c_str());
			vc::trans(6);
			t_osc_msg_s *fm = osc_bundle_s_getFirstMsg(s);
			CHECK(!!fm == !b.m.empty(), "first message is %s", fm ? "present" : "absent");
			if(fm) checkMsg(fm, b.m[0], "first message");
			t_osc_bndl_it_s *it = osc_bndl_it_s_get(buf.n, buf.p);
			for(int pass = 0; pass < 2; pass++){
				for(size_t k = 0; k < b.m.size(); k++){
					CHECK(osc_bndl_it_s_hasNext(it), "iteration ends at message %zu of %zu", k, b.m.size());
					t_osc_msg_s *m = osc_bndl_it_s_next(it);
					if(pass){ Msg r = rdMs(m); CHECK(eq(r, b.m[k]), "second pass: message %zu is %s", k, str(r).c_str()); continue; }
					checkMsg(m, b.m[k], "iterator");
					t_osc_msg_s *cp = NULL; osc_message_s_copy(&cp, m); checkMsg(cp, b.m[k], "copy");
					t_osc_msg_s *w = osc_message_s_alloc();
					CHECK(osc_message_s_wrap(w, osc_message_s_getPtr(m)) == OSC_ERR_NONE, "wrap failed");
					osc_message_s_cacheDataOffsets(w); checkMsg(w, b.m[k], "with cached offsets");
					// typed arrays over the arguments
					int n = b.m[k].v.size();
					t_osc_atom_ar_s *ar = osc_atom_array_s_alloc(n);
					for(int j = 0; j < n; j++){ t_osc_atom_s *a = (t_osc_atom_s *)osc_atom_array_s_get(ar, j); osc_message_s_getArg(m, j, &a); }
					CHECK(osc_atom_array_s_getLen(ar) == n, "array length");
					bool plain = true; for(auto &v : b.m[k].v) if(v.t == 'b' || v.t == 't' || v.t == '.' || (isflt(v.t) && !(fabs(v.d) < 1e9)) || (isint(v.t) && (v.i < 0 || v.i > 1000000))) plain = false;
					if(n && plain){
						double *d = NULL; float *f = NULL; int32_t *i = NULL; int64_t *h = NULL; uint32_t *I = NULL; uint64_t *H = NULL; char *bo = NULL;
						osc_atom_array_s_getDoubleArray(ar, &d); osc_atom_array_s_getFloatArray(ar, &f); osc_atom_array_s_getInt32Array(ar, &i); osc_atom_array_s_getInt64Array(ar, &h);
						osc_atom_array_s_getUInt32Array(ar, &I); osc_atom_array_s_getUInt64Array(ar, &H); osc_atom_array_s_getBoolArray(ar, &bo);
						for(int j = 0; j < n; j++){ t_osc_atom_s *a = (t_osc_atom_s *)osc_atom_array_s_get(ar, j); const Val &v = b.m[k].v[j];
							CHECK(d[j] == osc_atom_s_getDouble(a) && f[j] == osc_atom_s_getFloat(a) && i[j] == osc_atom_s_getInt32(a) && h[j] == osc_atom_s_getInt64(a) && I[j] == osc_atom_s_getUInt32(a) && H[j] == osc_atom_s_getUInt64(a) && bo[j] == (char)osc_atom_s_getBool(a), "typed array element %d", j);
							if(isint(v.t)) CHECK(d[j] == v.i && i[j] == v.i && h[j] == v.i && H[j] == (uint64_t)v.i && I[j] == (uint32_t)v.i && f[j] == (float)v.i && bo[j] == (v.i != 0), "typed array of %s", str(v).c_str());
							vc::trans();
						}
					}
					// readers by address
					size_t first = 0; while(b.m[first].a != b.m[k].a) first++;
					size_t off = 16; for(size_t q = 0; q < first; q++) off += 4 + enc(b.m[q]).size();
					CHECK(osc_bundle_s_getFirstFullMatch(buf.n, buf.p, (char *)b.m[k].a.c_str()) == buf.p + off, "first match of %s", b.m[k].a.c_str());
					CHECK(osc_bundle_s_getFirstEqualAddr(buf.n, buf.p, (char *)b.m[k].a.c_str()) == buf.p + off, "first equal address of %s", b.m[k].a.c_str());
					// renamed copy
					for(std::string na : {"/x", "/xyz", "/abcdefg", "/0/1/2/3/4"}){
						if(b.m[k].v.size() > 4) continue;
						Msg rm = b.m[k]; rm.a = na; std::string re = enc(rm); Buf rb(re.size() + 4);
						int32_t rn = osc_message_s_renameCopy(rb.p, m, na.size(), (char *)na.c_str());
						CHECK(rn == (int)re.size() && rbe(rb.p, 4) == re.size() && !memcmp(rb.p + 4, re.data(), re.size()), "renamed copy to %s", na.c_str());
						vc::trans();
					}
				}
				CHECK(!osc_bndl_it_s_hasNext(it), "iteration goes past the last message");
				t_osc_msg_s *m = osc_bndl_it_s_next(it);
				CHECK(!m || (!osc_message_s_getAddress(m) && !osc_message_s_getArgCount(m)), "iteration yields a message past the last");
				CHECK(!osc_bndl_it_s_hasNext(it), "iteration resumes after its end");
				osc_bndl_it_s_reset(it);
			}
			osc_bndl_it_s_destroy(it);
			CHECK(!osc_bundle_s_getFirstFullMatch(buf.n, buf.p, (char *)"/nosuch") && !osc_bundle_s_getFirstEqualAddr(buf.n, buf.p, (char *)"/nosuch"), "found an address that is not there");
			t_osc_bndl_s *dc = NULL; osc_bundle_s_deepCopy(&dc, s);
			CHECK(osc_bundle_s_getLen(dc) == (long)buf.n && osc_bundle_s_getPtr(dc) != buf.p && !memcmp(osc_bundle_s_getPtr(dc), e.data(), buf.n), "deep copy");
			CHECK(buf.s() == e, "reading changed the bytes");
			osc_bundle_s_setTimetag(buf.n, buf.p, mktt(0x0102030405060708ull));
			b.tt = 0x0102030405060708ull; CHECK(buf.s() == enc(b), "setting the timetag changed other bytes or did not set it");
			CHECK(rdtt(osc_bundle_s_getTimetag(buf.n, buf.p)) == b.tt, "timetag after setting it");
			vc::trans(4);
			// a message without a type string (address only) reads as having no arguments
			std::string z; pstr(z, "/zz"); std::string bb("#bundle\0\0\0\0\0\0\0\0\0", 16); be(bb, z.size(), 4); bb += z; std::string rest = enc(b0).substr(16); bb += rest;
			Buf nb(bb);
			t_osc_bndl_it_s *it2 = osc_bndl_it_s_get(nb.n, nb.p);
			t_osc_msg_s *zm = osc_bndl_it_s_next(it2);
			CHECK(!strcmp(osc_message_s_getAddress(zm), "/zz") && osc_message_s_getArgCount(zm) == 0 && !osc_message_s_getTypetags(zm) && !osc_message_s_getTypetag(zm, 0), "address-only message");
			t_osc_atom_s *na = NULL; osc_message_s_getArg(zm, 0, &na); CHECK(!na, "address-only message has an argument");
			size_t k = 0; while(osc_bndl_it_s_hasNext(it2)){ Msg r = rdMs(osc_bndl_it_s_next(it2)); CHECK(k < b.m.size() && eq(r, b.m[k]), "after an address-only message, message %zu is %s", k, str(r).c_str()); k++; }
			CHECK(k == b.m.size(), "after an address-only message, %zu of %zu messages", k, b.m.size());
}
void explore(){
	for(int n : {100, 127, 128, 255, 256, 1000, 4095, 4096, 32760, 32767, 32768, 40000, 65530, 65535, 65536, 70000, 200000}) CASE(vc::fmt("parts of %d bytes", n), {
		bndl(Bndl{0, {Msg{"/a", {vs(std::string(n, 'x')), vi('i', 1), vblob(std::string(n, 'y')), vd('d', 2), vb(Bndl{0, {Msg{"/b", {vs(std::string(n, 'z'))}}}}), vi('h', 3), vs("end")}}, Msg{"/c", {vi('i', 4)}}}}); });
	// renamed copies between addresses of every two lengths, of messages with and without arguments
	int RN = vc::tier ? 300 : 140;
	for(int n0 = 1; n0 <= RN; n0++) CASE(vc::fmt("renamed copies of an address of %d characters", n0), { for(int args = 0; args < 5; args++) for(int n1 = 2; n1 <= RN; n1++){
		Msg m{"/" + std::string(n0 - 1, 'o'), {}}, r{"/" + std::string(n1 - 1, 'n'), {}}; for(int j = 0; j < args; j++) m.v.push_back(j % 2 ? vs("tail") : vi('h', j + 1)); r.v = m.v;
		std::string e = enc(m), re = enc(r), pe; be(pe, e.size(), 4); Buf b(pe + e), o(re.size() + 4); t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, b.p);
		int32_t rn = osc_message_s_renameCopy(o.p, s, r.a.size(), (char *)r.a.c_str()); CHECK(rn == (int)re.size() && rbe(o.p, 4) == re.size() && !memcmp(o.p + 4, re.data(), re.size()), "from %d to %d characters, %d arguments: %s", n0, n1, args, vc::hex(o.p, o.n).c_str()); osc_message_s_free(s); vc::trans(); } });
	histories();
	forBundles(vc::tier, [](const Bndl &b){ CASE(str(b), { bndl(b); }); });
	forGrowing(vc::tier ? 400 : 150, [](int kind, int n, const Bndl &b){ CASE(growName(kind, n), { bndl(b); }); });
}
