// The bundle space shared by several checks: f(Bndl) is called for each member, in a fixed order.
#pragma once
#include "ref.hpp"
template<class F> void forBundles(int depth, F f)   // depth 0: small, 1: quick, 2: thorough
{
	std::vector<std::string> addrs = {"/", "/a", "/ab", "/abc", "/abcd", "/a/b", "/foo/bar/x"};
	auto one = [](const std::string &a, std::vector<Val> v){ Bndl b; b.m.push_back(Msg{a, v}); return b; };
	f(Bndl());
	// address lengths x argument counts (padding of addresses and type strings)
	for(auto &a : addrs) for(int n = 0; n <= (depth ? 9 : 4); n++){
		std::vector<Val> v; for(int k = 0; k < n; k++) v.push_back(vi('i', k + 1));
		f(one(a, v));
		if(n){ v.back() = vs("xyz"); f(one(a, v)); v[0] = vt('T'); f(one(a, v)); }
	}
	// every type, every boundary value, alone and between neighbours
	Bndl sub = one("/s", {vi('i', 7)}), sub0, subsub = one("/t", {vb(sub), vs("q")});
	std::vector<Val> subs = {vb(sub0), vb(sub), vb(subsub), vb(one("/n", {vb(sub0)}))};
	std::vector<Val> all;
	for(const char *t = ALLT; *t; t++) for(auto &v : valsOf(*t, 1)) all.push_back(v);
	for(auto &v : subs) all.push_back(v);
	for(auto &v : all){ f(one("/a", {v})); f(one("/abc", {vi('i', -1), v, vs("ab")})); f(one("/a", {v, v})); }
	// every tuple of types
	std::vector<std::vector<Val>> rep; for(const char *t = ALLT; *t; t++) rep.push_back(valsOf(*t, 0));
	rep.push_back({subs[1], subs[0]});
	int L = depth == 0 ? 2 : depth == 1 ? 3 : 4;
	std::vector<int> ix;
	std::function<void()> rec = [&](){
		if(!ix.empty()){
			std::vector<Val> v; for(size_t k = 0; k < ix.size(); k++) v.push_back(rep[ix[k]][(k + ix.size()) % rep[ix[k]].size()]);
			f(one("/ab", v));
		}
		if((int)ix.size() == L) return;
		for(size_t k = 0; k < rep.size(); k++){ ix.push_back(k); rec(); ix.pop_back(); }
	};
	rec();
	if(depth == 2) for(auto &v : all) for(auto &w : all) f(one("/abcd", {v, w}));
	// every bundle of up to K messages over a message alphabet
	std::vector<Msg> ms = { {"/a", {}}, {"/a", {vi('i', 1)}}, {"/b", {vs("abc")}}, {"/ab", {vd('d', .5), vi('c', -3)}}, {"/abc", {vt('T')}},
		{"/a/b", {vblob("\1\2\3")}}, {"/abcd", {vb(sub), vi('i', 2)}}, {"/e", {vb(sub0)}}, {"/t", {vi('t', 0x0123456789abcdefll), vt('N')}} };
	int K = depth == 0 ? 2 : depth == 1 ? 3 : 4;
	std::vector<int> mx;
	std::function<void()> rm = [&](){
		if(mx.size() >= 2){ Bndl b; for(int k : mx) b.m.push_back(ms[k]); f(b); f(one("/w", {vb(b)})); }
		if((int)mx.size() == K) return;
		for(size_t k = 0; k < ms.size(); k++){ mx.push_back(k); rm(); mx.pop_back(); }
	};
	rm();
	// nesting depth
	Bndl n = sub; for(int d = 0; d < 40; d++){ n = one(d % 2 ? "/nn" : "/n", {vi('i', d), vb(n)}); if(d > (depth ? 10 : 4) && d % 8 != 7 && d != 15) continue; f(n); if(d < 10){ Bndl n2 = n; n2.m.push_back(ms[1]); n2.m.push_back(n.m[0]); f(n2); } }
	// long ones
	for(int c : {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}){
		Bndl b; std::vector<Val> v, i, s; for(int k = 0; k < c; k++){ b.m.push_back(Msg{vc::fmt("/m%d", k), {vi('i', k)}}); v.push_back(all[k % all.size()]); i.push_back(vi('i', k)); s.push_back(vs(std::string(k % 7, 'a' + k % 26))); }
		f(b); f(one("/long", v)); f(one("/" + std::string(c, 'x'), {vs(std::string(c, 'y')), vblob(std::string(c, 'z')), vi('i', 1)}));
		if(c > 17){ f(one("/i", i)); f(one("/s", s)); Bndl w; for(int k = 0; k < c; k++) w.m.push_back(Msg{k % 3 ? "/w" : "/" + std::string(k % 5 + 1, 'v'), k % 4 ? std::vector<Val>{s[k]} : std::vector<Val>(k % 3, vi('h', k))}); f(w); f(one("/in", {vb(w), vi('i', 2)})); }
	}
}
static inline std::string spaceDesc(int depth){
	return vc::fmt("bundle space depth %d: all types x boundary values, all type tuples up to %d, all bundles of up to %d messages over a 9-message alphabet (also nested), nesting to %d, up to 300 arguments/messages, addresses and strings of every length class mod 4",
		depth, depth + 2, depth + 2, 40);
}
static inline uint64_t h64(const std::string &s){ return vc::hash(s.data(), s.size()); }
// one dimension of a bundle at every size to N: text, blobs, addresses, arguments of changing types, messages, text below a sub-bundle, nesting (to a third)
template<class F> void forGrowing(int N, F f)
{
	for(int n = 0; n <= N; n++) for(int kind = 0; kind < 9; kind++){ Bndl b; std::string t(n, 'a' + n % 26), z; for(int j = 0; j < n; j++) z += (char)(j * 37 + n);
		if(kind == 0) b.m = {Msg{"/a", {vs(t)}}, Msg{"/b", {vs(t), vi('i', n)}}};
		else if(kind == 1) b.m = {Msg{"/a", {vblob(z), vi('i', n)}}};
		else if(kind == 2) b.m = {Msg{"/" + t, {}}, Msg{"/" + t + "/b", {vi('i', n)}}};
		else if(kind == 3){ Msg m{"/a", {}}; for(int j = 0; j < n; j++) m.v.push_back(j % 5 == 1 ? vs(std::string(j % 7, 's')) : j % 5 == 2 ? vt("TFN"[j % 3]) : j % 5 == 3 ? vd('d', j + .5) : vi('i', j)); b.m = {m}; }
		else if(kind == 4) for(int j = 0; j < n; j++) b.m.push_back(Msg{vc::fmt("/%d", j), std::vector<Val>(j % 3, vi('i', j))});
		else if(kind == 5) b.m = {Msg{"/a", {vb(Bndl{0, {Msg{"/b", {vs(t), vs("z")}}}}), vi('i', 2)}}};
		else if(kind == 6){ if(n > N / 3) continue; b.m = {Msg{"/x", {vi('i', n)}}}; for(int j = 0; j < n; j++) b = Bndl{0, {Msg{"/n", {vb(b), vi('i', j)}}}}; }
		else if(kind == 7){ Msg m{"/a", {}}; for(int j = 0; j < n; j++) m.v.push_back(vs(std::string((j * 11 + n) % 29, 'a' + j % 26))); b.m = {m, Msg{"/z", {}}}; }
		else { Msg m{"/a", {}}; for(int j = 0; j < n; j++) m.v.push_back(vb(j % 2 ? Bndl() : Bndl{0, {Msg{"/q", {vi('i', j)}}}})); b.m = {Msg{"/0", {}}, m}; }
		f(kind, n, b); }
}
static inline std::string growDesc(int N){ return vc::fmt("; texts, blobs, addresses, argument lists of mixed types, of texts and of sub-bundles, message lists and texts below a sub-bundle of every size to %d, nesting to %d", N, N / 3); }
static inline std::string growName(int kind, int n){ static const char *K[] = {"texts", "a blob", "addresses", "mixed arguments", "messages", "text in a sub-bundle", "nested sub-bundles", "texts as arguments", "sub-bundles as arguments"}; return vc::fmt("%s of size %d", K[kind], n); }
