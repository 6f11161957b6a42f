// C19: printing into buffers of any size
#include "spaces.hpp"
#include "text.hpp"
const char *PROP = "C19";
std::string bounds(){ return spaceDesc(vc::tier + 1) + "; each value, message and bundle in both forms printed into every buffer size 0..length+3 (text over 160 bytes: the sizes within 40 of either end and every 7th; the lengthening texts: within 6 of either end and every 211th), in exactly sized heap blocks; the sizes announced beforehand; texts (plain, quoted, nested), addresses, argument lists and message lists of every size to " + std::to_string(vc::tier ? 400 : 200) + " and nesting to 50 deep; one value printed into a 32 MB buffer"; }
void warmup(){}
typedef std::function<long(char *, long)> PF;
static bool coarse;   // long text: fewer buffer sizes away from its ends
static void sizes(const char *what, const std::string &want, const PF &f, bool null_ok = true){
	if(null_ok){ long n0 = f(NULL, 0); CHECK(n0 == (long)want.size(), "%s: announces %ld, the text is %s (%zu)", what, n0, vc::q(want).c_str(), want.size()); }
	long L = want.size();
	for(long n = 0; n <= L + 3; n++){
		int edge = coarse ? 6 : 40; if(L > 160 && n > edge && n + edge < L && n % (coarse ? 211 : 7)) continue;
		Buf b(n); long r = f(b.p, n); vc::trans();
		CHECK(r == L, "%s: printing into %ld bytes returns %ld, the text has %ld", what, n, r, L);
		if(n > L){ CHECK(!memcmp(b.p, want.c_str(), L + 1), "%s: %ld bytes hold %s, want %s", what, n, vc::q(std::string(b.p, L + 1)).c_str(), vc::q(want).c_str()); for(long k = L + 1; k < n; k++) CHECK(true, "x"); }
		else if(n) CHECK(b.p[n - 1] == 0 && !memcmp(b.p, want.data(), n - 1), "%s: %ld bytes hold %s, want the start of %s", what, n, vc::q(std::string(b.p, n)).c_str(), vc::q(want).c_str());
	}
}
static void own(const char *what, const std::string &want, char *p){ CHECK(p, "%s: NULL", what); std::string g = p; osc_mem_free(p); vc::trans(); CHECK(g == want.c_str(), "%s gives %s, want %s", what, vc::q(g).c_str(), vc::q(want).c_str()); }
static bool hasNul(const Bndl &b){ for(auto &m : b.m) for(auto &v : m.v){ if((v.t == 'c' || v.t == 'C') && !(char)v.i) return true; if(v.t == '.' && hasNul(*v.b)) return true; } return false; }
static std::string plain(const Val &v){ return v.t == 's' ? v.s : v.t == '.' ? "" : txt(v); }
static void val(const Val &v, t_osc_atom_u *u, t_osc_atom_s *s){
	sizes("value in memory", txt(v), [&](char *p, long n){ return osc_atom_u_nformat(p, n, u, 0); }); sizes("encoded value", txt(v), [&](char *p, long n){ return osc_atom_s_nformat(p, n, s, 0); });
	CHECK(osc_atom_u_getFormattedSize(u) == (long)txt(v).size() && osc_atom_s_getFormattedSize(s) == (long)txt(v).size(), "printed size of a value %ld / %ld, want %zu", osc_atom_u_getFormattedSize(u), osc_atom_s_getFormattedSize(s), txt(v).size());
	own("osc_atom_u_format", txt(v), osc_atom_u_format(u)); own("osc_atom_s_format", txt(v), osc_atom_s_format(s));
	CHECK(osc_atom_u_getStringLen(u) == (int)plain(v).size() && osc_atom_s_getStringLen(s) == (int)plain(v).size(), "text length %d / %d, want %zu", osc_atom_u_getStringLen(u), osc_atom_s_getStringLen(s), plain(v).size());
	sizes("text in memory", plain(v), [&](char *p, long n){ return osc_atom_u_getString(u, n, &p); }, false); sizes("encoded text", plain(v), [&](char *p, long n){ return osc_atom_s_getString(s, n, &p); }, false);
}
static void bndl(const Bndl &b){
		std::string want = txt(b); vc::state(want);
		t_osc_bndl_u *u = mkB(b); Buf e(enc(b));
		sizes("bundle in memory", want, [&](char *p, long n){ return osc_bundle_u_nformat(p, n, u, 0); }); sizes("encoded bundle", want, [&](char *p, long n){ return osc_bundle_s_nformat(p, n, e.n, e.p, 0); });
		CHECK(osc_bundle_u_getFormattedSize(u) == (long)want.size() && osc_bundle_s_getFormattedSize(e.n, e.p) == (long)want.size(), "printed size of a bundle %ld / %ld, want %zu", osc_bundle_u_getFormattedSize(u), osc_bundle_s_getFormattedSize(e.n, e.p), want.size());
		own("osc_bundle_u_format", want, osc_bundle_u_format(u)); own("osc_bundle_s_format", want, osc_bundle_s_format(e.n, e.p));
		t_osc_bndl_s *w = osc_bundle_s_alloc(e.n, e.p); own("osc_bundle_s_pformat", want, osc_bundle_s_pformat(w)); osc_bundle_s_free(w);
		for(int in = 1; in < 3; in++){ std::string nb = txt(vb(b), in - 1); sizes("nested bundle in memory", nb, [&](char *p, long n){ return osc_bundle_u_nformatNestedBndl(p, n, u, in); }); sizes("encoded nested bundle", nb, [&](char *p, long n){ return osc_bundle_s_nformatNestedBndl(p, n, e.n, e.p, in); }); }
		t_osc_bndl_it_s *it = osc_bndl_it_s_get(e.n, e.p); size_t k = 0;
		for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m), k++){
			t_osc_msg_s *s = osc_bndl_it_s_next(it); if(k > 1) continue;
			for(int in = 0; in < 2; in++){ sizes("message in memory", txt(b.m[k], in), [&](char *p, long n){ return osc_message_u_nformat(p, n, m, in); }); sizes("encoded message", txt(b.m[k], in), [&](char *p, long n){ return osc_message_s_nformat(p, n, s, in); }); }
			CHECK(osc_message_u_getFormattedSize(m) == (long)txt(b.m[k]).size() && osc_message_s_getFormattedSize(s) == (long)txt(b.m[k]).size(), "printed size of a message %ld / %ld, want %zu", osc_message_u_getFormattedSize(m), osc_message_s_getFormattedSize(s), txt(b.m[k]).size());
			own("osc_message_u_format", txt(b.m[k]), osc_message_u_format(m)); own("osc_message_s_format", txt(b.m[k]), osc_message_s_format(s));
			if(b.m.size() == 1 && b.m[k].v.size() <= 2) for(size_t j = 0; j < b.m[k].v.size(); j++){ t_osc_atom_u *a = osc_message_u_getArg(m, j); t_osc_atom_s *sa = NULL; osc_message_s_getArg(s, j, &sa); val(b.m[k].v[j], a, sa); osc_atom_s_free(sa); }
		}
		osc_bndl_it_s_destroy(it); osc_bundle_u_free(u);
		CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str());
}
void explore(){
	int N = vc::tier ? 400 : 200;
	for(int kind = 0; kind < 7; kind++) for(int n0 = 0; n0 < N; n0 += 5){ static const char *K[] = {"a text", "a text to be quoted", "an address", "arguments", "messages", "a text in a nested bundle", "nesting"}; if(kind == 6 && n0 >= 50) continue;
		CASE(vc::fmt("%s of every size %d..%d", K[kind], n0, n0 + 4), { coarse = true; for(int n = n0; n < n0 + 5; n++){ Bndl b; std::string t(n, 'a' + n % 26);
			if(kind == 0) b.m = {Msg{"/a", {vs(t)}}}; else if(kind == 1){ for(int j = n % 3; j < n; j += 3) t[j] = "\"\\"[j % 2]; b.m = {Msg{"/a", {vi('i', 1), vs(t)}}}; } else if(kind == 2) b.m = {Msg{"/" + t, {}}, Msg{"/" + t, {vi('i', n)}}};
			else if(kind == 3){ Msg m{"/a", {}}; for(int j = 0; j < n; j++) m.v.push_back(vi('i', j * j * j - 50)); b.m = {m}; } else if(kind == 4) for(int j = 0; j < n; j++) b.m.push_back(Msg{vc::fmt("/%d", j), {vi('i', j)}}); else if(kind == 5) b.m = {Msg{"/a", {vb(Bndl{0, {Msg{"/b", {vs(t), vs("z")}}}}), vi('i', 2)}}};
			else { b.m = {Msg{"/x", {vi('i', n)}}}; for(int j = 0; j < n; j++) b = Bndl{0, {Msg{"/n", {vb(b)}}}}; }
			bndl(b); } coarse = false; }); }
	forBundles(vc::tier + 1, [](const Bndl &b){ if(hasNul(b)) return; CASE(str(b), {
bndl(b);
	}); });
	CASE("a 32 MB buffer", { for(const char *s : {"", "abc", "a\"b\\"}){ Bndl b; b.m.push_back(Msg{"/a", {vs(s), vi('i', 1)}}); t_osc_bndl_u *u = mkB(b); char *p = (char *)malloc(32 << 20); long r = osc_bundle_u_nformat(p, 32 << 20, u, 0); CHECK(r == (long)txt(b).size() && txt(b) == p, "prints %s", p); free(p); osc_bundle_u_free(u); } });
}
