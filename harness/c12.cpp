// C12: the byte-at-a-time checker, as the product of its automaton with a reference automaton
#include "spaces.hpp"
extern "C" {
#include "osc_serial.h"
}
#include <unordered_set>
#include <deque>
const char *PROP = "C12";
static int NMAX(){ return vc::tier ? 1040 : 300; }
std::string bounds(){ return vc::fmt("the product of the checker's automaton with a reference automaton, all reachable states over all 256 bytes: bundles whose first message has any size word up to %d (and all size words with one byte not zero), followed by any number of messages of sizes 8, 12, 24, 128, 256, 260; single messages to %d bytes; streams of all bundles of: %s; messages of 2^16 and 2^24 bytes", NMAX(), vc::tier ? 256 : 64, (spaceDesc(vc::tier + 1) + growDesc(vc::tier ? 1500 : 500)).c_str()); }
void warmup(){}
// ---- reference: where a byte stream stops being a bundle or message (the data of a message are not examined)
struct R {
	uint8_t ph = 0, br = 0, bad = 0, naked = 0;   // 0 id, 1 timetag, 2 size, 3 address, 4 its padding, 5 types, 6 their padding, 7 data
	uint32_t off = 0, N = 0;
	bool operator==(const R &o) const { return ph == o.ph && br == o.br && bad == o.bad && naked == o.naked && off == o.off && N == o.N; }
};
static const char *ID = "#bundle";
static bool content(R &r, uint8_t b){   // one byte of a message; false: cannot occur here
	uint32_t o = r.off++; bool al = r.off % 4 == 0;
	switch(r.ph){
	case 3:
		if(o == 0) return b == '/';
		if(b == 0){ if(r.br) return false; r.ph = 4; return true; }
		switch(r.br){
		case 0: if(b == '{') r.br = 1; else if(b == '[') r.br = 3; else return b != '}' && b != ']'; return true;
		case 1: case 2: if(b == '}'){ r.br = 0; return true; } if(b == ','){ if(r.br == 2) return false; r.br = 2; return true; } if(strchr("[]{*?", b)) return false; r.br = 1; return true;
		default: if(b == ']'){ r.br = 0; return true; } if(b == '-'){ if(r.br == 4) return false; r.br = 4; return true; } if(strchr("{}[*?", b)) return false; r.br = 3; return true;
		}
	case 4: if(o % 4){ return b == 0; } r.ph = 5; return b == ',';
	case 5: if(b == 0){ r.ph = 6; if(al) r.ph = 7; return true; } return strchr("cCuUiIhHfdsbtTFN.", b);
	case 6: if(b) return false; if(al) r.ph = 7; return true;
	case 7: return true;
	}
	return false;
}
static bool canEnd(R r){   // can the message still be completed within its size?
	if(r.naked) return true; uint32_t left = r.N - r.off, o = r.off; auto pad = [](uint32_t x){ return (x + 3) / 4 * 4; };
	switch(r.ph){
	case 3: { uint32_t e = o ? o : 1; if(r.br) e++; e = pad(e + 1) + 4; return e <= r.N; }
	case 4: return pad(o) + 4 <= r.N;
	case 5: return pad(o + 1) <= r.N;
	case 6: return pad(o) <= r.N;
	default: return (void)left, true;
	}
}
static void next(R &r, uint8_t b){   // sets bad at the first byte after which no well-formed stream continues
	if(r.ph == 0){ if(r.off == 0 && b == '/'){ r.naked = 1; r.ph = 3; r.off = 1; return; } if(b != (uint8_t)ID[r.off]) r.bad = 2; if(++r.off == 8){ r.ph = 1; r.off = 0; } return; }
	if(r.ph == 1){ if(++r.off == 8){ r.ph = 2; r.off = 0; r.N = 0; } return; }
	if(r.ph == 2){ if(r.off == 0 && (b & 0x80)) r.bad = 1; r.N = r.N << 8 | b; if(++r.off == 4){ if(r.bad || r.N == 0){ r.bad = 2; return; } r.off = 0; r.ph = 3; if(r.N % 4 || r.N < 8) r.bad = 1; } return; }
	if(!r.bad){ if(!content(r, b) || !canEnd(r)) r.bad = r.naked ? 2 : 1; } else r.off++;
	if(!r.naked && r.off == r.N){ if(r.bad) r.bad = 2; else { r.ph = 2; r.off = 0; r.N = 0; } }
}
// bad: 1 an error is due by the end of the message, 2 now
struct P { uint64_t s; R r; bool operator==(const P &o) const { return s == o.s && r == o.r; } };
struct PH { size_t operator()(const P &p) const { uint64_t h = p.s * 0x9e3779b97f4a7c15ull; h ^= (uint64_t)p.r.ph << 3 ^ (uint64_t)p.r.br << 8 ^ (uint64_t)p.r.bad << 12 ^ (uint64_t)p.r.naked << 15 ^ (uint64_t)p.r.off << 16 ^ (uint64_t)p.r.N << 40; h *= 0xff51afd7ed558ccdull; return h ^ h >> 32; } };
static std::string rs(const R &r){ static const char *n[] = {"id", "timetag", "size", "address", "address padding", "types", "type padding", "data"}; return vc::fmt("%s%s at %u of %u%s", r.naked ? "message " : "", n[r.ph], r.off, r.N, r.br ? " in brackets" : ""); }
static uint64_t nst, ner;
static bool step(const P &p, uint8_t b, P &q, const std::function<std::string()> &tr){   // false: the stream has ended in an error, rightly
	q.r = p.r; next(q.r, b); q.s = osc_serial_processByte((char)b, p.s); bool e = osc_serial_errorp(q.s); vc::trans();
	if(e){ ner++; const char *m = osc_serial_errstr(q.s); CHECK(q.r.bad, "error \"%s\" at byte 0x%02x (%s) of %s, which can be continued", m ? m : "?", b, rs(p.r).c_str(), tr().c_str()); CHECK(m && *m, "error without a description at %s", tr().c_str()); return false; }
	CHECK(q.r.bad != 2, "no error up to byte 0x%02x (%s) of %s", b, rs(p.r).c_str(), tr().c_str());
	return true;
}
// explore from a prefix: all bytes everywhere, sizes of later messages from a list
static const uint32_t SZ[] = {8, 12, 24, 128, 256, 260};
static void walk(const std::string &prefix, uint32_t lim){
	struct N { P p; int par; uint8_t b; }; std::vector<N> q; std::unordered_set<P, PH> seen; P s{OSC_SERIAL_INIT, R()};
	for(size_t k = 0; k < prefix.size(); k++){ P n; if(!step(s, prefix[k], n, [&]{ return vc::hex(prefix.data(), k + 1); })) return; s = n; }
	q.push_back(N{s, -1, 0}); seen.insert(s);
	for(size_t k = 0; k < q.size(); k++){
		auto tr = [&](int last){ return [&, last]{ std::string o; for(int j = k; q[j].par >= 0; j = q[j].par) o = (char)q[j].b + o; o = prefix + o; if(last >= 0) o += (char)last; return vc::hex(o.data(), o.size()); }; };
		const P p = q[k].p; if(p.r.naked && p.r.off >= lim) continue;
		for(int b = 0; b < 256; b++){
			P n; if(!step(p, b, n, tr(b))) continue;
			if(n.r.ph == 2 && !n.r.bad){ bool ok = n.r.off == 0; for(uint32_t z : SZ) if(n.r.off && z >> 8 * (4 - n.r.off) == n.r.N) ok = true; if(!ok) continue; }
			if(p.r.ph == 2 && n.r.ph == 3 && !n.r.bad){ bool ok = false; for(uint32_t z : SZ) ok |= z == n.r.N; if(!ok) continue; }
			if(p.r.ph == 2 && n.r.bad && n.r.N > 64) continue;
			if(p.r.ph == 1) n.r.bad = 0;
			if(seen.insert(n).second){ q.push_back(N{n, (int)k, (uint8_t)b}); }
		}
	}
	nst += q.size(); for(auto &n : q) vc::state(n.p.s ^ PH()(n.p) * 31);
}
static void done(){ vc::count("product states", nst); vc::count("streams ended by an error", ner); nst = ner = 0; }
static void stream(const std::string &s, const char *what){ uint64_t st = OSC_SERIAL_INIT; for(size_t k = 0; k < s.size(); k++){ st = osc_serial_processByte(s[k], st); if(osc_serial_errorp(st)) vc::fail("%s: error \"%s\" at byte %zu of %zu", what, osc_serial_errstr(st), k, s.size()); } vc::trans(s.size()); }
void explore(){
	std::string hd = enc(Bndl());
	CASE("from the first byte", { walk("", vc::tier ? 256 : 64); done(); });
	for(int n = 0; n <= NMAX(); n++) CASE(vc::fmt("first message of size %d", n), { std::string s = hd; be(s, n, 4); walk(s, 0); done(); });
	CASE("size words", { for(int k = 0; k < 4; k++) for(int v = 0; v < 256; v++){ std::string s = hd + std::string(4, '\0'); s[16 + k] = v; P p{OSC_SERIAL_INIT, R()}; bool go = true; for(size_t j = 0; j < s.size() && go; j++){ P n; go = step(p, s[j], n, [&]{ return vc::hex(s.data(), j + 1); }); p = n; } if(go && p.r.N >= 8 && !p.r.bad && p.r.N < 1u << 22){ std::string m = "/a" + std::string(2, '\0') + ",i" + std::string(2, '\0'); m += std::string(p.r.N - 8, '\x7f'); std::string z = "/z" + std::string(2, '\0') + "," + std::string(3, '\0'); stream(s + m + std::string("\0\0\0\10", 4) + z, vc::fmt("messages of %u and 8 bytes", p.r.N).c_str()); } } done(); });
	CASE("large messages", { for(uint32_t n : {65532u, 65536u, 65540u, 16777212u, 16777216u, 16777220u, 0x01020304u}){ std::string s = hd; be(s, n, 4); s += std::string("/a\0\0,b\0\0", 8) + std::string(n - 8, '\x80'); stream(s, "a large message"); be(s, 8, 4); s += std::string("/b\0\0,\0\0\0", 8); stream(s, "a message after a large one"); P p{OSC_SERIAL_INIT, R()}; uint64_t st = 0; for(char c : s) st = osc_serial_processByte(c, st); std::string x("\0\0\0\10x", 5); for(char c : x) st = osc_serial_processByte(c, st); CHECK(osc_serial_errorp(st), "no error for a message without a slash after a large one"); } done(); });
	forBundles(vc::tier + 1, [](const Bndl &b){ for(auto &m : b.m) if(m.a.find_first_of("#") != std::string::npos) return; CASE(str(b), { std::string s = enc(b); stream(s, "bundle"); uint64_t st = 0; vc::state(s); for(auto &m : b.m){ std::string e = enc(m); stream(e, "message"); } for(int k = 8; k < 16; k++) for(int c : {0, 1, 127, 128, 255}){ std::string t = s; t[k] = c; stream(t, "bundle with another timetag"); } (void)st; }); });
	forGrowing(vc::tier ? 1500 : 500, [](int kind, int n, const Bndl &b){ CASE(growName(kind, n), { std::string s = enc(b); stream(s, "bundle"); vc::state(s); for(size_t k = 0; k < b.m.size() && k < 4; k++) stream(enc(b.m[k]), "message"); }); });
}
