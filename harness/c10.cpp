// C10: explode and flatten against a reference on all small bundles over an address tree
#include "ref.hpp"
const char *PROP = "C10";
static const char *ADDR[] = {"/a", "/b", "/a/b", "/a/c", "/b/a", "/a/b/c", "/a/b/d", "/ab/b", "/a/b/c/d/e"};
static const int NA = sizeof ADDR / sizeof *ADDR;
std::string bounds(){ return vc::fmt("every bundle of 0..%d messages over %d addresses x 6 argument lists (scalars, none, several, sub-bundles, mixtures), depth limits -1,0,1,2,3,5, separators, every chain of nested sub-bundles of up to %d levels flattened to every limit, encoded and in memory, addresses of up to 20 parts and bundles of up to 130 messages exploded to every limit, empty enclosing messages kept and dropped", vc::tier ? 3 : 2, NA, vc::tier ? 7 : 4); }
void warmup(){}
static Bndl canon(const Bndl &b){ Bndl r; r.m = b.m; for(auto &m : r.m) for(auto &v : m.v) if(v.t == '.') v = vb(canon(*v.b)); std::sort(r.m.begin(), r.m.end(), [](const Msg &a, const Msg &b){ return str(a) < str(b); }); return r; }
static bool same(const Bndl &a, const Bndl &b){ return eq(canon(a), canon(b), false); }
static void addNoDup(Bndl &d, const Msg &m){ for(size_t k = 0; k < d.m.size();) if(d.m[k].a == m.a) d.m.erase(d.m.begin() + k); else k++; d.m.push_back(m); }
static bool clash;      // the bundle has an address twice, or one that is also a leading part of another
static void explodeMsg(Bndl &d, Msg m, int level, int max, char sep){
	if(max >= 0 && level >= max){ d.m.push_back(m); return; }
	size_t i = m.a.find(sep, m.a[0] == sep ? 1 : 0); if(i == std::string::npos) i = m.a.size();
	std::string head = m.a.substr(0, i), rest = m.a.substr(i);
	if(rest.empty()){ addNoDup(d, m); return; }
	if(rest[0] != '/') rest = rest.substr(1);
	if(rest.empty() || rest[0] != '/') rest = "/" + rest;
	Bndl sub; for(auto &x : d.m) if(x.a == head && x.v.size() == 1 && x.v[0].t == '.') sub = *x.v[0].b;
	m.a = rest; explodeMsg(sub, m, level + 1, max, sep);
	addNoDup(d, Msg{head, {vb(sub)}});
}
static Bndl explodeRef(const Bndl &b, int max, char sep){ Bndl r; for(auto &m : b.m) explodeMsg(r, m, 0, max, sep); return r; }
static void flattenInto(Bndl &d, const Bndl &b, int max, int level, const std::string &pfx, const std::string &sep, bool drop){
	for(auto &m : b.m){
		Msg r{level ? pfx + sep + m.a : m.a, {}};
		for(auto &v : m.v) if(v.t == '.' && (max <= 0 || level < max)) flattenInto(d, *v.b, max, level + 1, r.a, sep, drop); else r.v.push_back(v);
		if(!drop || r.v.size()) addNoDup(d, r);
	}
}
static Bndl flattenRef(const Bndl &b, int max, const std::string &sep, bool drop){ Bndl r; flattenInto(r, b, max, 0, "", sep, drop); return r; }
static bool clashes(const Bndl &b){
	std::vector<std::string> a; for(auto &m : b.m) a.push_back(m.a + "/");
	for(size_t i = 0; i < a.size(); i++) for(size_t j = 0; j < a.size(); j++) if(i != j && a[j].compare(0, a[i].size(), a[i]) == 0){
		// an enclosing message that holds exactly a sub-bundle merges with its extensions
		return true;
	}
	return false;
}
static Bndl decS(t_osc_bndl_s *b, const char *w){ Bndl r; CHECK(b && dec(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b), r), "%s is not a well-formed bundle", w); return r; }
static void one(const Bndl &b){
	std::string e = enc(b); Buf buf(e); t_osc_bndl_s *bs = osc_bundle_s_alloc(buf.n, buf.p); t_osc_bndl_u *bu = mkB(b);
	bool cl = clashes(b);
	bool noargs = false; for(auto &m : b.m) noargs |= m.v.empty();
	for(int max : {-1, 0, 1, 2, 3, 5}){
		Bndl want = explodeRef(b, max, '/');
		t_osc_bndl_s *ex = NULL; CHECK(osc_bundle_s_explode(&ex, bs, max, (char *)(max == 2 ? NULL : max == 3 ? "" : "/")) == OSC_ERR_NONE, "explode failed"); Bndl got = decS(ex, "the exploded bundle");
		t_osc_bndl_u *eu = NULL; CHECK(osc_bundle_u_explode(&eu, bu, max, (char *)"/") == OSC_ERR_NONE, "explode failed"); Bndl gotu = rdB(eu);
		CHECK(same(got, gotu), "exploding to %d differs between encoded %s and in-memory %s", max, str(got).c_str(), str(gotu).c_str());
		if(!cl) CHECK(same(got, want), "exploding to %d gives %s, want %s", max, str(got).c_str(), str(want).c_str());
		for(int drop = 0; drop < 2; drop++){
			t_osc_bndl_s *fl = NULL; CHECK(osc_bundle_s_flatten(&fl, ex, 0, (char *)(drop ? "" : NULL), drop) == OSC_ERR_NONE, "flatten failed"); Bndl g = decS(fl, "the flattened bundle");
			Bndl all = flattenRef(b, 0, "", drop), lost, kept = g;
			if(drop) for(auto &m : all.m){ bool f = false; for(auto &q : g.m) f |= eq(m, q); if(!f) lost.m.push_back(m); }
			if(!cl){ if(drop) CHECK(lost.m.empty() && same(g, all), "flattening the bundle exploded to %d gives %s, want %s", max, str(g).c_str(), str(all).c_str());
				else for(auto &m : all.m){ bool f = false; for(auto &q : g.m) f |= eq(m, q); CHECK(f, "%s is lost by exploding to %d and flattening: %s", str(m).c_str(), max, str(g).c_str()); } }
			else for(auto &q : g.m) if(!q.v.empty()){ bool f = false; Bndl src = b; for(auto &m : b.m){ Bndl one; one.m.push_back(m); Bndl x = flattenRef(one, 0, "", drop); for(auto &y : x.m) f |= eq(y, q); } CHECK(f, "%s was invented by exploding to %d and flattening", str(q).c_str(), max); }
			osc_bundle_s_deepFree(fl); vc::trans();
		}
		osc_bundle_s_deepFree(ex); osc_bundle_u_free(eu); vc::trans(2);
		// flattening the input itself
		for(int drop = 0; drop < 2; drop++) for(const char *sep : {"", ".", "/x/"}){
			Bndl w = flattenRef(b, max, sep, drop); t_osc_bndl_s *fl = NULL; CHECK(osc_bundle_s_flatten(&fl, bs, max, (char *)sep, drop) == OSC_ERR_NONE, "flatten failed"); Bndl g = decS(fl, "the flattened bundle");
			t_osc_bndl_u *fu = NULL; CHECK(osc_bundle_u_flatten(&fu, bu, max, (char *)sep, drop) == OSC_ERR_NONE, "flatten failed"); Bndl gu = rdB(fu);
			CHECK(same(g, gu), "flattening differs between encoded %s and in-memory %s", str(g).c_str(), str(gu).c_str());
			std::set<std::string> s; bool dup = false; std::function<void(const Bndl &, std::string)> walk = [&](const Bndl &x, std::string p){ for(auto &m : x.m){ std::string a = p + m.a; if(!s.insert(a).second) dup = true; for(auto &v : m.v) if(v.t == '.') walk(*v.b, a + sep); } }; walk(b, "");
			if(!dup) CHECK(same(g, w), "flattening to %d with %s gives %s, want %s", max, vc::q(sep).c_str(), str(g).c_str(), str(w).c_str());
			else { std::set<std::string> x, y; for(auto &m : g.m) x.insert(m.a); for(auto &m : w.m) y.insert(m.a); CHECK(x == y, "flattening gives the addresses of %s, want those of %s", str(g).c_str(), str(w).c_str()); }
			osc_bundle_s_deepFree(fl); osc_bundle_u_free(fu); vc::trans();
		}
	}
	CHECK(buf.s() == e && eq(rdB(bu), b, false), "the input changed");
	osc_bundle_s_free(bs); osc_bundle_u_free(bu);
	CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	auto mk = [](int k, int i){ Msg m{ADDR[k / 6], {}}; Bndl s1{0, {Msg{"/x", {vi('i', i)}}}}, s2{0, {Msg{"/x", {vi('i', i), vb(Bndl{0, {Msg{"/y", {vs("deep")}}, Msg{"/z/w", {}}}})}}, Msg{"/v/u", {vd('d', i)}}}};
		switch(k % 6){ case 0: m.v = {vi('i', i)}; break; case 1: break; case 2: m.v = {vi('i', i), vs("two"), vd('f', 3)}; break; case 3: m.v = {vb(s1)}; break; case 4: m.v = {vi('i', i), vb(s2), vs("t")}; break; case 5: m.v = {vb(s2), vb(s1)}; break; } return m; };
	int N = NA * 6; Bndl b; CASE("{}", { one(Bndl()); });
	for(int x = 0; x < N; x++){
		Bndl b1; b1.m = {mk(x, 1)}; CASE(str(b1), { one(b1); vc::state(str(b1)); });
		CASE(str(b1) + " + *", { for(int y = 0; y < N; y++){ Bndl c = b1; c.m.push_back(mk(y, 2)); try{ one(c); }catch(vc::Fail &f){ vc::fail("%s: %s", str(c).c_str(), f.msg.c_str()); } vc::state(str(c)); } });
		if(vc::tier) for(int y = 0; y < N; y++) CASE(str(b1) + ", " + str(mk(y, 2)) + " + *", { for(int z = 0; z < N; z++){ Bndl c = b1; c.m.push_back(mk(y, 2)); c.m.push_back(mk(z, 3)); try{ one(c); }catch(vc::Fail &f){ vc::fail("%s: %s", str(c).c_str(), f.msg.c_str()); } vc::state(str(c)); } });
	}
	// simple messages only: three and four messages
	int n = vc::tier ? 5 : 4; std::vector<int> s;
	std::function<void(int)> go = [&](int left){
		Bndl c; for(size_t k = 0; k < s.size(); k++) c.m.push_back(Msg{ADDR[s[k]], {vi('i', k)}});
		if(s.size() >= 2 && left >= 1) CASE(str(c) + " + simple", { for(int y = 0; y < NA; y++){ Bndl d = c; d.m.push_back(Msg{ADDR[y], {vi('i', 9)}}); one(d); vc::state(str(d)); } });
		if(left > 1) for(int y = 0; y < NA; y++){ s.push_back(y); go(left - 1); s.pop_back(); }
	};
	go(n);
	// deep chains: at each level, a sub-bundle alone, with scalars before or after it, or with a sibling message; to every limit
	for(int L = 1; L <= (vc::tier ? 7 : 4); L++){ int n = 1; for(int k = 0; k < L; k++) n *= 5; for(int c = 0; c < n; c++){
		CASE(vc::fmt("chain of %d levels, shape %d", L, c), {
			Bndl in{0, {Msg{"/leaf", {vi('i', 7)}}}}; int x = c;
			for(int k = 0; k < L; k++, x /= 5){ Msg m{vc::fmt("/l%d", k), {vb(in)}}; switch(x % 5){ case 1: m.v.insert(m.v.begin(), vi('i', k)); break; case 2: m.v.push_back(vs("after")); break; case 4: m.v.push_back(vb(Bndl{0, {Msg{"/twin", {vi('i', k)}}}})); break; } Bndl up; up.m = {m}; if(x % 5 == 3) up.m.push_back(Msg{"/sib", {vi('i', k)}}); in = up; }
			std::string e = enc(in); Buf buf(e); t_osc_bndl_s *bs = osc_bundle_s_alloc(buf.n, buf.p); t_osc_bndl_u *bu = mkB(in);
			for(int max = -1; max <= L + 1; max++) for(int drop = 0; drop < 2; drop++){
				Bndl w = flattenRef(in, max, "", drop); t_osc_bndl_s *fl = NULL; CHECK(osc_bundle_s_flatten(&fl, bs, max, (char *)"", drop) == OSC_ERR_NONE, "flatten failed"); Bndl g = decS(fl, "the flattened bundle"); osc_bundle_s_deepFree(fl);
				t_osc_bndl_u *fu = NULL; CHECK(osc_bundle_u_flatten(&fu, bu, max, (char *)"", drop) == OSC_ERR_NONE, "flatten failed"); Bndl gu = rdB(fu); osc_bundle_u_free(fu); vc::trans(2);
				CHECK(same(g, w), "flattening %s to %d gives %s, want %s", str(in).c_str(), max, str(g).c_str(), str(w).c_str()); CHECK(same(gu, w), "flattening %s in memory to %d gives %s, want %s", str(in).c_str(), max, str(gu).c_str(), str(w).c_str());
			}
			osc_bundle_s_free(bs); osc_bundle_u_free(bu); vc::state(str(in)); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
		}); } }
	// addresses of up to 20 parts, and bundles of many messages below shared parts, to every limit
	for(int L = 1; L <= 20; L++) for(int shape = 0; shape < 4; shape++) CASE(vc::fmt("addresses of %d parts, shape %d", L, shape), {
		Bndl b; auto path = [](int n, const std::string &part){ std::string r; for(int k = 0; k < n; k++) r += "/" + part + (k ? vc::fmt("%d", k) : ""); return r; };
		b.m.push_back(Msg{path(L, shape == 1 ? "longer" : "p"), {vi('i', 1)}}); if(shape == 1) b.m.push_back(Msg{"/z" + path(L, "p"), {vs("two"), vi('i', 2)}}); if(shape == 2) for(int k = 1; k < L; k++) b.m.push_back(Msg{path(k, "p") + "/other", {vi('i', k)}}); if(shape == 3) for(int k = 0; k < 30; k++) b.m.push_back(Msg{path(L - 1, "p") + vc::fmt("/s%d", k), {vi('i', k), vs(std::string(k, 's'))}});
		if(shape == 3) b.m.erase(b.m.begin());
		std::string e = enc(b); Buf buf(e); t_osc_bndl_s *bs = osc_bundle_s_alloc(buf.n, buf.p); t_osc_bndl_u *bu = mkB(b); bool cl = clashes(b);
		for(int max = -1; max <= L + 1; max++){
			Bndl want = explodeRef(b, max, '/'); t_osc_bndl_s *ex = NULL; CHECK(osc_bundle_s_explode(&ex, bs, max, (char *)"/") == OSC_ERR_NONE, "explode failed"); Bndl got = decS(ex, "the exploded bundle"); t_osc_bndl_u *eu = NULL; CHECK(osc_bundle_u_explode(&eu, bu, max, (char *)"/") == OSC_ERR_NONE, "explode failed"); Bndl gotu = rdB(eu);
			CHECK(same(got, gotu), "exploding to %d differs between encoded and in memory", max); if(!cl) CHECK(same(got, want), "exploding to %d gives %s, want %s", max, str(got).c_str(), str(want).c_str());
			for(int lim : {0, 1, 2, 6, L, L + 1}){ Bndl w = flattenRef(got, lim, "", true); t_osc_bndl_s *fl = NULL; CHECK(osc_bundle_s_flatten(&fl, ex, lim, (char *)"", 1) == OSC_ERR_NONE, "flatten failed"); Bndl g = decS(fl, "the flattened bundle"); osc_bundle_s_deepFree(fl); t_osc_bndl_u *fu = NULL; osc_bundle_u_flatten(&fu, eu, lim, (char *)"", 1); Bndl gu = rdB(fu); osc_bundle_u_free(fu); vc::trans(2);
				if(!cl){ CHECK(same(g, w), "flattening to %d what was exploded to %d gives %s, want %s", lim, max, str(g).c_str(), str(w).c_str()); CHECK(same(gu, w), "flattening in memory to %d what was exploded to %d gives %s, want %s", lim, max, str(gu).c_str(), str(w).c_str()); if(!lim) CHECK(same(g, b), "exploding to %d and flattening does not restore the bundle", max); } }
			osc_bundle_s_deepFree(ex); osc_bundle_u_free(eu); vc::trans(2); }
		osc_bundle_s_free(bs); osc_bundle_u_free(bu); vc::state(str(b)); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
	});
	for(int n : {15, 16, 17, 40, 64, 65, 100, 130}) CASE(vc::fmt("%d messages", n), { Bndl b; for(int k = 0; k < n; k++) b.m.push_back(Msg{vc::fmt("/g%d/h%d/%s%d", k % 7, k % 3, k % 2 ? "a" : "longer", k), {vi('i', k), vs(std::string(k, 'x'))}}); one(b); });
	// exploding at another separator undoes flattening with it
	for(const char *sep : {".", ":", "_"}) for(int x = 0; x < NA; x++) for(int y = 0; y < NA; y++){
		Bndl o; o.m = {Msg{ADDR[x], {vi('i', 1)}}, Msg{ADDR[y], {vs("t")}}};
		CASE(vc::fmt("separator %s: %s", sep, str(o).c_str()), {
			if(clashes(o)) return;
			auto rp = [&](Bndl b, bool slash){ for(auto &m : b.m){ std::string r; for(size_t k = 0; k < m.a.size(); k++) if(k && m.a[k] == '/'){ r += sep; if(slash) r += '/'; } else r += m.a[k]; m.a = r; } return b; };
			for(int slash = 0; slash < 2; slash++) for(int max : {-1, 1, 2, 3}){
				Bndl in = rp(o, slash); Bndl want = explodeRef(in, max, *sep); std::string e = enc(in); Buf buf(e); t_osc_bndl_s *bs = osc_bundle_s_alloc(buf.n, buf.p), *ex = NULL;
				CHECK(osc_bundle_s_explode(&ex, bs, max, (char *)sep) == OSC_ERR_NONE, "explode failed"); Bndl g = decS(ex, "the exploded bundle");
				CHECK(same(g, want), "exploding %s to %d gives %s, want %s", str(in).c_str(), max, str(g).c_str(), str(want).c_str());
				t_osc_bndl_s *fl = NULL; osc_bundle_s_flatten(&fl, ex, 0, (char *)sep, 1); Bndl f = decS(fl, "the flattened bundle"); CHECK(same(f, rp(o, true)) || max > 0, "flattening gives %s, want %s", str(f).c_str(), str(rp(o, true)).c_str());
				osc_bundle_s_deepFree(fl); osc_bundle_s_deepFree(ex); osc_bundle_s_free(bs); vc::trans(2);
			}
			CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
		});
	}
	CASE("messages without address", {
		t_osc_bndl_u *b = osc_bundle_u_alloc(), *o = NULL; t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_appendInt32(m, 1); osc_bundle_u_addMsg(b, m);
		osc_bundle_u_explode(&o, b, -1, (char *)"/"); CHECK(osc_bundle_u_getMsgCount(o) <= 1, "messages invented"); osc_bundle_u_free(o); o = NULL;
		osc_bundle_u_flatten(&o, b, 0, (char *)"", 0); CHECK(osc_bundle_u_getMsgCount(o) <= 1, "messages invented"); osc_bundle_u_free(o); osc_bundle_u_free(b);
		CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
	});
}
