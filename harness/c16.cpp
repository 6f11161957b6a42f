// C16: timetag arithmetic as 64-bit fixed-point numbers
#include "ref.hpp"
#include <sys/time.h>
const char *PROP = "C16";
static std::vector<uint32_t> S(){ std::vector<uint32_t> v = {0, 1, 2, 59, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 3155760000u, 2208988800u}; if(vc::tier) for(int k = 2; k < 32; k++) for(int d = -1; d < 2; d++) v.push_back((1u << k) + d); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static std::vector<uint32_t> F(){ std::vector<uint32_t> v = {0, 1, 2, 4295, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xc0000000u, 0xfffffffeu, 0xffffffffu}; if(vc::tier) for(int k = 3; k < 32; k += 3) for(int d = -1; d < 2; d++) v.push_back((1u << k) + d); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
std::string bounds(){ return vc::fmt("every pair of timetags from %zu boundary seconds x %zu boundary fractions: add, subtract, compare; every one of them: header encoding at 4 alignments, conversion to seconds and back; every microsecond of a second for the current time", S().size(), F().size()); }
static bool fakeTime; static struct timeval fakeTv;
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { if(fakeTime){ *tv = fakeTv; return 0; } struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
void warmup(){}
static void one(uint64_t a){
	t_osc_timetag t = mktt(a); vc::state(a);
	for(int al = 0; al < 4; al++){ char *h = (char *)malloc(8 + al); osc_timetag_encodeForHeader(t, h + al); std::string w; be(w, a, 8); CHECK(std::string(h + al, 8) == w, "header bytes %s", vc::hex(h + al, 8).c_str()); CHECK(rdtt(osc_timetag_decodeFromHeader(h + al)) == a, "decoded header %llx", (unsigned long long)rdtt(osc_timetag_decodeFromHeader(h + al))); free(h); }
	CHECK(osc_timetag_ntp_getSeconds(t) == (uint32_t)(a >> 32) && osc_timetag_ntp_getFraction(t) == (uint32_t)a, "seconds and fraction accessors");
	CHECK((osc_timetag_isImmediate(t) != 0) == (a == 1), "isImmediate");
	double d = osc_timetag_timetagToFloat(t), want = (double)((long double)a / 4294967296.0L), tol = std::max(2.4e-10, std::fabs(std::nextafter(want, 1e300) - want) * 2);
	CHECK(std::fabs(d - want) <= tol, "converts to %.17g seconds, want %.17g", d, want);
	if(d < 4294967296.0){ uint64_t b = rdtt(osc_timetag_floatToTimetag(d)); __int128 df = (__int128)b - (__int128)a; if(df < 0) df = -df; uint64_t max = 2 + (uint64_t)(4294967296.0L * 2 * (std::nextafter(want, 1e300) - want)); CHECK(df <= max, "%.17g seconds convert back to %08x.%08x", d, (uint32_t)(b >> 32), (uint32_t)b); }
	vc::trans(8);
}
void explore(){
	auto s = S(), f = F(); std::vector<uint64_t> T; for(auto x : s) for(auto y : f) T.push_back((uint64_t)x << 32 | y);
	for(uint64_t a : T) CASE(vc::fmt("timetag %08x.%08x", (uint32_t)(a >> 32), (uint32_t)a), {
		one(a);
		for(uint64_t b : T){
			t_osc_timetag x = mktt(a), y = mktt(b); uint64_t sum = rdtt(osc_timetag_add(x, y)), dif = rdtt(osc_timetag_subtract(x, y)); int c = osc_timetag_compare(x, y); vc::trans(3);
			auto p = [](uint64_t v){ return vc::fmt("%08x.%08x", (uint32_t)(v >> 32), (uint32_t)v); };
			CHECK(sum == a + b, "plus %s is %s", p(b).c_str(), p(sum).c_str());
			CHECK(dif == (a >= b ? a - b : b - a), "minus %s is %s", p(b).c_str(), p(dif).c_str());
			CHECK((c < 0) == (a < b) && (c > 0) == (a > b), "compared with %s gives %d", p(b).c_str(), c);
			if(a >= b) CHECK(rdtt(osc_timetag_add(osc_timetag_subtract(x, y), y)) == a, "minus %s added back", p(b).c_str());
			if(a <= b) CHECK(osc_timetag_timetagToFloat(x) <= osc_timetag_timetagToFloat(y), "later in seconds than %s", p(b).c_str());
		}
	});
	for(int k = 0; k < 100; k++) CASE(vc::fmt("microseconds from %d", k * 10000), { for(int u = k * 10000; u < (k + 1) * 10000; u++) for(long sec : {0l, 1600000000l, 2085978495l}){ fakeTime = true; fakeTv.tv_sec = sec; fakeTv.tv_usec = u; t_osc_timetag t = osc_timetag_now(); fakeTime = false; vc::trans(); uint64_t g = rdtt(t); uint64_t w = ((uint64_t)(sec + 2208988800ll) << 32) + (((uint64_t)u << 32) / 1000000); int64_t df = g - w; CHECK(df < 5000 && df > -5000, "at %d us the current time is %08x.%08x", u, (uint32_t)(g >> 32), (uint32_t)g); } });
}
