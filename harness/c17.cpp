// C17: dates against the civil calendar
#include "ref.hpp"
const char *PROP = "C17";
std::string bounds(){ return vc::fmt("every %sday from 1900-01-01 to the end of the era in 2036 at 9 boundary seconds of the day x %d boundary fractions, rendered into buffers of every size at month and year boundaries; parsed back; every day parsed from 8 spellings (no fraction, 1..9 digits, Z or not) and with zone offsets", "", vc::tier ? 27 : 11); }
void warmup(){}
static void civil(int64_t z, int &y, int &m, int &d){ z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
static std::vector<uint32_t> fracs(){ std::vector<uint32_t> v = {0, 1, 0x80000000u, 0x7fffffff, 0x40000000, 0xffffffffu, 0xfffff000u, 0xfffff7a0u, 4294u, 2147u, 530242871u}; if(vc::tier) for(int k = 4; k < 32; k += 2){ v.push_back(1u << k); } if(vc::tier) { v.push_back(4294967295u - 2148); v.push_back(4294967295u - 2147); } return v; }
static t_osc_timetag parse(const std::string &s){ std::string z = s; z += '\0'; Buf b(z); t_osc_timetag t = mktt(0xabababababababab); osc_timetag_fromISO8601((char *)b.p, &t); vc::trans(); return t; }
static void day(int64_t dn, bool edge){
	int y, m, d; civil(dn - 25567, y, m, d); bool roll = d == 1 || d >= 28;
	static const int secs[] = {0, 1, 59, 60, 3599, 3600, 43200, 86398, 86399};
	for(int sd : secs){
		uint64_t sec = (uint64_t)dn * 86400 + sd; if(sec > 0xffffffffull) continue;
		std::string base = vc::fmt("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, sd / 3600, sd / 60 % 60, sd % 60);
		for(uint32_t f : fracs()){
			uint64_t a = sec << 32 | f; t_osc_timetag t = mktt(a);
			char *s = osc_timetag_format(t); vc::trans(); std::string g = s; osc_mem_free(s); long len = osc_timetag_nformat(NULL, 0, t);
			CHECK(len == (long)g.size(), "%08x.%08x: announced length %ld, printed %s", (uint32_t)sec, f, len, vc::q(g).c_str());
			CHECK(g.size() == 27 && g.substr(0, 19) == base && g[19] == '.' && g[26] == 'Z' && g.substr(20, 6).find_first_not_of("0123456789") == std::string::npos, "%08x.%08x renders as %s, want %s.dddddd", (uint32_t)sec, f, vc::q(g).c_str(), base.c_str());
			long us = atol(g.substr(20, 6).c_str()); double want = f / 4294.967296; CHECK(std::fabs(us - want) <= 1.0, "fraction %08x renders as %06ld, want %.3f", f, us, want);
			uint64_t b = rdtt(parse(g)); int64_t df = (int64_t)(uint32_t)b - (int64_t)f; CHECK(b >> 32 == sec && df <= 4300 && df >= -4300, "%s parses back to %08x.%08x, want %08x.%08x", g.c_str(), (uint32_t)(b >> 32), (uint32_t)b, (uint32_t)sec, f);
			char *s2 = osc_timetag_format(mktt(b)); std::string g2 = s2; osc_mem_free(s2); CHECK(g2 == g, "%s parses and prints as %s", g.c_str(), g2.c_str());
			if(roll && edge) for(long n = 0; n < 31; n++){ char *p = (char *)malloc(n ? n : 1); long r = osc_timetag_nformat(p, n, t); vc::trans(); CHECK(r == 27, "printing into %ld bytes returns %ld", n, r); if(n > 0) CHECK(g.compare(0, n - 1, p) == 0 && strlen(p) == std::min<size_t>(n - 1, 27), "printing into %ld bytes gives %s", n, vc::q(p).c_str()); free(p); }
		}
		struct { const char *t; double x; } sp[] = {{"", 0}, {"Z", 0}, {".5", .5}, {".25Z", .25}, {".123456789", .123456789}, {".999999Z", .999999}, {".000001", .000001}, {".0Z", 0}};
		for(auto &q : sp){ uint64_t b = rdtt(parse(base + q.t)); int64_t df = (int64_t)(uint32_t)b - (int64_t)(q.x * 4294967296.0); CHECK(b >> 32 == sec && df < 16 && df > -16, "%s%s parses to %08x.%08x, want second %08x", base.c_str(), q.t, (uint32_t)(b >> 32), (uint32_t)b, (uint32_t)sec); }
		for(const char *fr : {"", ".5"}) for(int z : {60, -60, 330, -210, 845, -720, 1439, 0, 1, -1}){ int64_t w = (int64_t)sec - z * 60; if(w < 0 || w > 0xffffffffll) continue; std::string t = base + fr + vc::fmt("%c%02d:%02d", z < 0 ? '-' : '+', std::abs(z) / 60, std::abs(z) % 60); uint64_t b = rdtt(parse(t)); CHECK((int64_t)(b >> 32) == w, "%s parses to second %08x, want %08x", t.c_str(), (uint32_t)(b >> 32), (uint32_t)w); }
		vc::state(sec);
	}
	CHECK(vc::live() == 0, "%ld blocks remain", vc::live());
}
void explore(){ for(int64_t c = 0; c <= 49710; c += 10) CASE(vc::fmt("days %lld to %lld", (long long)c, (long long)c + 9), { for(int64_t d = c; d < c + 10 && d <= 49710; d++) day(d, vc::tier || d % 7 == 0); }); }
