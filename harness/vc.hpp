// Bounded-exhaustive explorer core: case enumeration, worker supervision, allocator, state set.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <functional>
#include <memory>
#include <algorithm>
#include <cmath>
#include <cfloat>
#include <limits>

namespace vc {
// sizes at which something that grows one by one is looked at in full
inline bool look(long n){ return n < 40 || n % 64 <= 1 || n % 64 == 63 || n % 100 <= 1; }
struct Fail { std::string msg; };
extern int tier;                    // 0 quick, 1 thorough
extern bool replaying;
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf,1,2)));
bool want();                        // advance the case counter; does this worker run the case?
void enter(const std::string &desc);
void leave();
void failed(const std::string &msg);
bool stop();                        // failure cap or budget reached
void trans(uint64_t n = 1);         // API operations executed on the implementation and checked
void state(uint64_t h);             // distinct model state
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull){
	const unsigned char *c = (const unsigned char *)p;
	for(size_t i = 0; i < n; i++){ h ^= c[i]; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h ? h : 1;
}
inline void state(const std::string &s){ state(hash(s.data(), s.size())); }
void count(const char *name, uint64_t n = 1);   // observed-outcome counters, reported in the evidence
void allow(const char *what);                   // unused placeholder

template<class D, class B> void run(D d, B b)
{
	if(stop() || !want()) return;
	enter(d());
	try{ b(); }catch(Fail &f){ failed(f.msg); }
	leave();
}

// library allocator
extern unsigned char fill;
extern bool track;                  // blocks allocated while set are freed at the end of the case
long live();                        // number of live tracked blocks
std::string live_desc();
extern long foreign_frees;           // blocks handed to the user's free function that did not come from the user's allocator
extern __thread int in_alloc;        // inside the user's allocator functions
void install_allocator();
void reset_blocks();                // free what is left over
extern long errors_reported;        // calls of the library's error handler in this case
extern std::string last_error;

std::string fmt(const char *f, ...) __attribute__((format(printf,1,2)));
std::string q(const std::string &s);            // printable quoting
std::string hex(const void *p, size_t n);
}
#define CHECK(c, ...) do{ if(!(c)) vc::fail(__VA_ARGS__); }while(0)
#define CASE(D, ...) vc::run([&]()->std::string{ return D; }, [&]__VA_ARGS__)

// every driver defines these
extern const char *PROP;
void explore();                     // enumerates, calling vc::run for each case
std::string bounds();               // what this tier enumerates, in words
void warmup();                      // touch lazily built globals before tracking starts
