// C28: two threads on separate objects, under a controlled scheduler
#include "eval.hpp"
#include <atomic>
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sanitizer/asan_interface.h>
#include <unordered_map>
#include <unordered_set>
extern "C" {
#include "osc_vtable.h"
#include "osc_dispatch.h"
#include "osc_match.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_serial.h"
#include "osc_hashtab.h"
#include "osc_error.h"
#include "osc_typetag.h"
#include "osc_bundle_iterator_s.h"
extern char __start_libodata[] __attribute__((weak)), __stop_libodata[] __attribute__((weak)), __start_libobss[] __attribute__((weak)), __stop_libobss[] __attribute__((weak));
}
const char *PROP = "C28";
typedef uintptr_t U;
// ------------------------------------------------------------------ memory of one thread: its stack and its arena
static const size_t ARENA = 4 << 20, STACK = 256 << 10;
static char *arena[2], *stk[2]; static size_t apos[2]; static U aLo[2], sLo[2];
static std::vector<std::pair<U, U>> shared_;      // writable static data of the library and of the C library
static __thread int me = -1; static __thread int quiet;
static bool inr(U a, U lo, size_t n){ return a - lo < n; }
static void *a_alloc0(size_t n){ size_t z = (n + 15) / 16 * 16, at = apos[me]; if(at + z + 48 > ARENA) return NULL; apos[me] += z + 48; char *p = arena[me] + at + 32; __asan_unpoison_memory_region(p - 16, 16); *(uint64_t *)(p - 16) = n; *(uint64_t *)(p - 8) = 0x5ca1ab1e; __asan_poison_memory_region(p - 16, 16); __asan_unpoison_memory_region(p, n); memset(p, 0xA5, n); return p; }
static bool mine(const void *p){ return inr((U)p, aLo[0], ARENA) || inr((U)p, aLo[1], ARENA); }
static uint64_t sizeOf(void *p){ char *h = (char *)p - 16; __asan_unpoison_memory_region(h, 16); uint64_t n = *(uint64_t *)h, m = *(uint64_t *)(h + 8); __asan_poison_memory_region(h, 16); return m == 0x5ca1ab1e ? n : ~0ull; }
// ------------------------------------------------------------------ scheduler
struct Ev { U g; bool w; };
static bool recording; static std::unordered_map<U, int> acc[2];       // granule -> 1 read, 2 written
static std::unordered_set<U> conflict; static bool grown;              // granules both threads touch, one of them writing
static std::atomic<int> turn, fin[2]; static std::atomic<bool> freeRun; static long cnt[2]; static size_t seg; static int firstT; static const std::vector<long> *pre; static uint64_t ticks, switches; static bool solo; static int mode;   // mode 0: every point, 1: conflicting accesses only
static void fwait(int w){ for(int k = 0; turn != w && !freeRun; k++) syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, 1 - w, NULL, NULL, 0); }
static void pass(int to){ turn = to; syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
static void hand(){ if(solo || freeRun || fin[1 - me]) return; switches++; ticks = 0; int m = me; pass(1 - m); fwait(m); }
static void hit(){ long c = cnt[me]++; if(solo || seg >= pre->size()) return; if((int)((firstT + seg) & 1) != me) return; if((*pre)[seg] >= 0 && c == (*pre)[seg] && !fin[1 - me]){ seg++; hand(); } }
static void point(){ if(me < 0 || quiet || mode) return; quiet++; hit(); quiet--; }
static bool sharedMem(U a){ for(auto &r : shared_) if(a - r.first < r.second) return true; return false; }
static void access(U a, size_t n, bool w){
	int m = me; if(m < 0 || quiet || !n) return;
	if(inr(a, sLo[m], STACK) || inr(a, aLo[m], ARENA)){ if(!solo && ++ticks > 400000000){ freeRun = true; pass(1 - m); } return; }
	if(!inr(a, aLo[1 - m], ARENA) && !sharedMem(a)) return;
	quiet++; bool pt = false;
	for(U g = a >> 3; g <= (a + n - 1) >> 3; g++){ int &x = acc[m][g]; x |= w ? 2 : 1; auto o = acc[1 - m].find(g); if(o != acc[1 - m].end() && (x & 2 || o->second & 2)) if(conflict.insert(g).second) grown = true; pt |= conflict.count(g); }
	if(pt) hit();
	quiet--;
}
static void blocked(){ if(solo || fin[1 - me]) return; quiet++; hand(); quiet--; }   // waiting for the other thread
extern "C" {
#define LS(n) void __sanitizer_cov_load##n(void *a){ access((U)a, n, false); } void __sanitizer_cov_store##n(void *a){ access((U)a, n, true); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __sanitizer_cov_trace_pc_guard(uint32_t *){} void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *){}
#define REAL(r, f, p) r __real_##f p; r __wrap_##f p
#define A(p, n, w) access((U)(p), n, w)
REAL(void *, __asan_memcpy, (void *d, const void *s, size_t n)){ A(s, n, 0); A(d, n, 1); return __real___asan_memcpy(d, s, n); }
REAL(void *, __asan_memmove, (void *d, const void *s, size_t n)){ A(s, n, 0); A(d, n, 1); return __real___asan_memmove(d, s, n); }
REAL(void *, __asan_memset, (void *d, int c, size_t n)){ A(d, n, 1); return __real___asan_memset(d, c, n); }
REAL(int, memcmp, (const void *d, const void *s, size_t n)){ A(s, n, 0); A(d, n, 0); return __real_memcmp(d, s, n); }
REAL(char *, strcpy, (char *d, const char *s)){ size_t n = strnlen(s, 1 << 20) + 1; A(s, n, 0); A(d, n, 1); return __real_strcpy(d, s); }
REAL(char *, strncpy, (char *d, const char *s, size_t n)){ A(s, strnlen(s, n), 0); A(d, n, 1); return __real_strncpy(d, s, n); }
REAL(char *, strcat, (char *d, const char *s)){ A(s, strnlen(s, 1 << 20) + 1, 0); A(d, strnlen(d, 1 << 20) + strnlen(s, 1 << 20) + 1, 1); return __real_strcat(d, s); }
REAL(char *, strncat, (char *d, const char *s, size_t n)){ A(s, strnlen(s, n), 0); A(d, strnlen(d, 1 << 20) + strnlen(s, n) + 1, 1); return __real_strncat(d, s, n); }
REAL(size_t, strlen, (const char *s)){ size_t n = __real_strlen(s); A(s, n + 1, 0); return n; }
REAL(int, strcmp, (const char *a, const char *b)){ A(a, 1, 0); A(b, 1, 0); return __real_strcmp(a, b); }
REAL(int, strncmp, (const char *a, const char *b, size_t n)){ A(a, 1, 0); A(b, 1, 0); return __real_strncmp(a, b, n); }
REAL(int, vsnprintf, (char *d, size_t n, const char *f, va_list a)){ point(); int r = __real_vsnprintf(d, n, f, a); if(d && n && r >= 0) A(d, std::min<size_t>(n, r + 1), 1); point(); return r; }
int __wrap_snprintf(char *d, size_t n, const char *f, ...){ va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, n, f, a); va_end(a); return r; }
int __wrap_sprintf(char *d, const char *f, ...){ va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, 1 << 20, f, a); va_end(a); return r; }
int __wrap_printf(const char *f, ...){ (void)f; point(); return 0; }
struct tm; REAL(struct tm *, gmtime, (const time_t *t)){ point(); struct tm *r = __real_gmtime(t); A(r, 8, 1); point(); return r; }
REAL(struct tm *, localtime, (const time_t *t)){ point(); struct tm *r = __real_localtime(t); A(r, 8, 1); point(); return r; }
REAL(char *, strtok, (char *s, const char *d)){ point(); char *r = __real_strtok(s, d); point(); return r; }
REAL(char *, asctime, (const struct tm *t)){ point(); char *r = __real_asctime(t); point(); return r; }
REAL(char *, strerror, (int e)){ point(); char *r = __real_strerror(e); point(); return r; }
REAL(char *, setlocale, (int c, const char *l)){ point(); char *r = __real_setlocale(c, l); point(); return r; }
REAL(int, setenv, (const char *n, const char *v, int o)){ point(); int r = __real_setenv(n, v, o); point(); return r; }
REAL(int, unsetenv, (const char *n)){ point(); int r = __real_unsetenv(n); point(); return r; }
REAL(int, putenv, (char *n)){ point(); int r = __real_putenv(n); point(); return r; }
REAL(void, tzset, (void)){ point(); __real_tzset(); point(); }
REAL(time_t, mktime, (struct tm *t)){ point(); time_t r = __real_mktime(t); point(); return r; }
REAL(int, rand, (void)){ point(); int r = __real_rand(); return r; }
REAL(void, qsort, (void *b, size_t n, size_t z, int (*f)(const void *, const void *))){ point(); __real_qsort(b, n, z, f); point(); }
// memory the library takes past the user's allocator comes from the thread's arena too
void *__wrap_malloc(size_t n); void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n){ if(me < 0 || quiet) return __real_malloc(n); return a_alloc0(n); }
void *__wrap_calloc(size_t a, size_t b){ if(me < 0 || quiet) return __real_calloc(a, b); void *p = a_alloc0(a * b); if(p) memset(p, 0, a * b); return p; }
static void a_free(void *p){ uint64_t n = sizeOf(p); if(n == ~0ull || __asan_address_is_poisoned(p)){ volatile char c = *(volatile char *)p; (void)c; abort(); } __asan_poison_memory_region(p, n ? n : 1); }
void __wrap_free(void *p){ if(!p) return; if(mine(p)) a_free(p); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n){ if(!p) return __wrap_malloc(n); if(!mine(p)) return __real_realloc(p, n); void *r = a_alloc0(n); if(!r) return r; uint64_t o = sizeOf(p); memcpy(r, p, o < n ? o : n); a_free(p); return r; }
// locks: a thread that has to wait lets the other one run
REAL(int, pthread_mutex_lock, (pthread_mutex_t *m)){ if(me < 0 || solo) return __real_pthread_mutex_lock(m); for(int k = 0; k < 100000; k++){ int r = pthread_mutex_trylock(m); if(r != EBUSY) return r; blocked(); } return __real_pthread_mutex_lock(m); }
REAL(int, pthread_spin_lock, (pthread_spinlock_t *m)){ for(;;){ int r = pthread_spin_trylock(m); if(r != EBUSY) return r; if(me >= 0) blocked(); } }
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *m)){ if(me < 0 || solo) return __real_pthread_rwlock_rdlock(m); for(int k = 0; k < 100000; k++){ int r = pthread_rwlock_tryrdlock(m); if(r != EBUSY) return r; blocked(); } return __real_pthread_rwlock_rdlock(m); }
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *m)){ if(me < 0 || solo) return __real_pthread_rwlock_wrlock(m); for(int k = 0; k < 100000; k++){ int r = pthread_rwlock_trywrlock(m); if(r != EBUSY) return r; blocked(); } return __real_pthread_rwlock_wrlock(m); }
REAL(int, pthread_once, (pthread_once_t *o, void (*f)(void))){ int *s = (int *)o; while(*(volatile int *)s == 1) blocked(); if(*s) return 0; *s = 1; f(); *s = 2; return 0; }
}
// the user's allocator and error handler: the places where a thread calls out
static void *u_alloc(size_t n){ if(me < 0) return malloc(n); point(); quiet++; void *p = a_alloc0(n); quiet--; return p; }
static void u_free(void *p){ if(!p) return; if(me < 0){ free(p); return; } point(); quiet++; if(mine(p)) a_free(p); else free(p); quiet--; }
static void *u_resize(void *p, size_t n){ if(me < 0) return realloc(p, n); point(); quiet++; void *r = a_alloc0(n); if(p){ uint64_t o = sizeOf(p); memcpy(r, p, o < n ? o : n); a_free(p); } quiet--; return r; }
static std::string msgs[2];
static int u_err(void *ctx, const char *const s){ if(me < 0) return 0; quiet++; msgs[me] += vc::fmt("{%ld:%s}", (long)ctx, s); quiet--; point(); return 0; }
// ------------------------------------------------------------------ what the threads do
struct Q { Q(){ quiet++; } ~Q(){ quiet--; } };     // the harness's own work is not scheduled
struct OpD { const char *name; std::string (*f)(int k); };
static std::string H(const void *p, size_t n){ Q q; return vc::hex(p, n); }
static Bndl land(int k){ return k ? Bndl{7, {Msg{"/x", {vi('i', 40), vd('d', 2.5)}}, Msg{"/name", {vs("second")}}, Msg{"/b/c", {vi('h', 1ll << 40)}}}} : Bndl{1, {Msg{"/x", {vi('i', 3)}}, Msg{"/y", {vs("first \"quoted\" text"), vd('f', .5), vt('T')}}}}; }
static std::string bytesOf(int k){ Q q; return enc(land(k)); }
static std::string oBuild(int k){ t_osc_bndl_u *b; { Q q; } t_osc_msg_u *m = osc_message_u_allocWithAddress((char *)(k ? "/alpha" : "/be")); if(k) osc_message_u_appendInt32(m, 17); osc_message_u_appendString(m, (char *)(k ? "one" : "another text")); osc_message_u_appendDouble(m, k ? 1.5 : -2); b = osc_bundle_u_alloc(); osc_bundle_u_addMsg(b, m); long n = osc_bundle_u_nserialize(NULL, 0, b); char *p = (char *)osc_mem_alloc(n); osc_bundle_u_nserialize(p, n, b); std::string r = H(p, n); osc_mem_free(p); osc_bundle_u_free(b); return r; }
static std::string oText(int k){ std::string e = bytesOf(k); long n = osc_bundle_s_nformat(NULL, 0, e.size(), (char *)e.data(), 0); char *p = (char *)osc_mem_alloc(n + 1); osc_bundle_s_nformat(p, n + 1, e.size(), (char *)e.data(), 0); std::string r(p); osc_mem_free(p); return r; }
static std::string oTextU(int k){ std::string e = bytesOf(k); t_osc_bndl_u *b = osc_bundle_s_deserialize(e.size(), (char *)e.data()); char *p = osc_bundle_u_format(b); std::string r(p ? p : ""); osc_mem_free(p); osc_bundle_u_free(b); return r; }
static std::string oParse(int k){ char t[2][48] = {"/a : [1, 2.5, \"x\"], /bc : 2026-01-02T03:04:05Z", "/foo : { /bar : \"str\\\"ing\", /z : nil }"}; t_osc_bndl_u *b = NULL; t_osc_err e = osc_parser_parseString(strlen(t[k]), t[k], &b); std::string r = vc::fmt("%llx ", (long long)e); if(b){ long n = osc_bundle_u_nserialize(NULL, 0, b); char *p = (char *)osc_mem_alloc(n); osc_bundle_u_nserialize(p, n, b); r += H(p, n); osc_mem_free(p); osc_bundle_u_free(b); } return r; }
static std::string oParseErr(int k){ char t[2][24] = {"/a : [1, \n\n 2 : }", "/b 17 { \n]"}; t_osc_bndl_u *b = NULL; t_osc_err e = osc_parser_parseString(strlen(t[k]), t[k], &b); if(b) osc_bundle_u_free(b); return vc::fmt("%llx", (long long)e); }
static std::string evalText(const char *text, int k, long ctx){
	char buf[200]; { Q q; strcpy(buf, text); } std::string r; t_osc_expr *f = NULL; t_osc_err e = osc_expr_parser_parseExpr(buf, &f, (void *)ctx); if(!f) return vc::fmt("no expression, %llx", (long long)e);
	std::string by = bytesOf(k); long n = by.size(); char *p = (char *)osc_mem_alloc(n); memcpy(p, by.data(), n);
	for(t_osc_expr *g = f; g; g = osc_expr_next(g)){ t_osc_atom_ar_u *o = NULL; int er = osc_expr_eval(g, &n, &p, &o, (void *)ctx); r += vc::fmt("%d", !!er); if(o){ for(long j = 0; j < osc_atom_array_u_getLen(o); j++){ char *s = osc_atom_u_format((t_osc_atom_u *)osc_atom_array_u_get(o, j)); r += s ? s : "?"; r += ' '; osc_mem_free(s); } osc_atom_array_u_free(o); } }
	r += H(p, n); osc_mem_free(p); osc_expr_free(f); return r;
}
static std::string oEval(int k){ return evalText(k ? "/z = /x * 2 + 1" : "/r = [/x, 4.5, \"s\"]", k, 1 + k); }
static std::string oSyntax(int k){ return evalText(k ? "/a = = 1" : "/b = 1\n + (", k, 3 + k); }
static std::string oEvalErr(int k){ return evalText(k ? "/q + 1" : "/x - \"s\"", k, 5 + k); }
static std::string oLambda(int k){ return evalText(k ? "/m = map(lambda([a, b], a * b), [1, 2], [3, 4])" : "/l = apply(lambda([a], a + 1), /x)", k, 7); }
static std::string oString(int k){ return evalText(k ? "/s = split(\" \", \"a b c\")" : "/j = join(\"-\", \"x\", \"yz\")", k, 7); }
static std::string oNested(int k){ return evalText(k ? "eval(\"/e = 1 + 1\")" : "/v = value(\"/x\"), /t = length(/x)", k, 7); }
static std::string oBundleX(int k){ return evalText(k ? "/n = {/p : 1, /q : \"t\"}" : "/n./i./j = 5", k, 7); }
static std::string oQuery(int k){ return evalText(k ? "getaddresses()" : "exists(/x) && bound(/y)", k, 7); }
static std::string oFold(int k){ return evalText(k ? "lreduce(lambda([a, b], a - b), [1, 2, 3])" : "sort([3, 1, 2])", k, 7); }
static std::string oStats(int k){ return evalText(k ? "median([5, 1, 3])" : "mean([1, 2, 6.])", k, 7); }
static std::string oTime(int k){ char b[64]; t_osc_timetag t = mktt(k ? 0x80000000ull << 32 | 5 : 3600ull << 32 | 1u << 31); osc_timetag_nformat(b, sizeof b, t); t_osc_timetag u; osc_timetag_fromISO8601(b, &u); char *s = osc_timetag_format(u); std::string r = std::string(b) + s; osc_mem_free(s); return r + vc::fmt(" %.17g", osc_timetag_timetagToFloat(osc_timetag_add(t, u))); }
static std::string oMatch(int k){ int a = -1, b = -1; int r = osc_match(k ? "/{foo,ba[r-z]}/*x" : "/a*/?b", k ? "/bar/yyx" : "/aaa/cb/d", &a, &b); return vc::fmt("%d %d %d", r, a, b); }
static void meth(t_osc_vtable_entry *e, long, char *, t_osc_bndl_s *p, t_osc_bndl_s *c, void *x){ std::string *o = (std::string *)x; *o += osc_vtable_entry_getSelector(e); *o += vc::fmt(" %ld %ld;", p ? osc_bundle_s_getLen(p) : 0, c ? osc_bundle_s_getLen(c) : 0); }
static std::string oDispatch(int k){ std::string e = bytesOf(k), r; t_osc_vtable *v = osc_vtable_alloc(2); osc_vtable_addEntry(v, (char *)"/x", (t_osc_vtable_method)meth, &r); osc_vtable_addEntry(v, (char *)(k ? "/b" : "/y"), (t_osc_vtable_method)meth, &r); osc_dispatch(v, e.size(), (char *)e.data(), k); osc_vtable_free(v); return r; }
static std::string oRset(int k){ std::string e = bytesOf(k); char *sel[2] = {(char *)"/x", (char *)(k ? "/b" : "/[y-z]")}; t_osc_rset *rs = NULL; t_osc_err er = osc_query_select(2, sel, e.size(), (char *)e.data(), 0, &rs); std::string r = vc::fmt("%llx", (long long)er); if(rs){ for(char *s : sel){ t_osc_rset_result *q = osc_rset_select(rs, s); t_osc_bndl_s *c = q ? osc_rset_result_getCompleteMatches(q) : NULL; if(c) r += H(osc_bundle_s_getPtr(c), osc_bundle_s_getLen(c)); r += "|"; } osc_rset_free(rs); } return r; }
static std::string oSets(int k){ std::string a = bytesOf(k), b = bytesOf(!k), r; t_osc_bndl_s *x = osc_bundle_s_alloc(a.size(), (char *)a.data()), *y = osc_bundle_s_alloc(b.size(), (char *)b.data()), *z = osc_bundle_s_union(x, y); r = H(osc_bundle_s_getPtr(z), osc_bundle_s_getLen(z)); osc_bundle_s_deepFree(z); long n = 0; char *p = NULL; osc_bundle_s_intersection(a.size(), (char *)a.data(), b.size(), (char *)b.data(), &n, &p); if(p) r += H(p, n); osc_mem_free(p); osc_bundle_s_free(x); osc_bundle_s_free(y); return r; }
static std::string oEdit(int k){ std::string a = bytesOf(k); long n = a.size(), l = n; char *p = (char *)osc_mem_alloc(n); memcpy(p, a.data(), n); osc_bundle_s_removeMessage((char *)(k ? "/name" : "/x"), &n, p, 1); std::string r = H(p, n); (void)l; osc_mem_free(p); return r; }
static std::string oHash(int k){ t_osc_hashtab *h = osc_hashtab_new(3, NULL); char key[2][2][6] = {{"one", "two"}, {"three", "four"}}; for(int j = 0; j < 2; j++) osc_hashtab_store(h, strlen(key[k][j]), key[k][j], (void *)(long)(j + 1 + 10 * k)); std::string r; for(int j = 0; j < 2; j++) r += vc::fmt("%ld ", (long)osc_hashtab_lookup(h, strlen(key[k][j]), key[k][j])); osc_hashtab_destroy(h); return r; }
static std::string oSerial(int k){ std::string a = bytesOf(k); if(k) a[20] = 'x'; uint64_t s = OSC_SERIAL_INIT; size_t j = 0; for(; j < a.size() && j < 40; j++){ s = osc_serial_processByte(a[j], s); if(osc_serial_errorp(s)) break; } const char *m = osc_serial_errorp(s) ? osc_serial_errstr(s) : NULL; return vc::fmt("%zu %s", j, m ? m : ""); }
static std::string oNumbers(int k){ t_osc_atom_u *a = osc_atom_u_alloc(); std::string r; if(k){ osc_atom_u_setDouble(a, -12.25); } else osc_atom_u_setString(a, (char *)"17.5 and"); r = vc::fmt("%d %g ", osc_atom_u_getInt32(a), osc_atom_u_getDouble(a)); char *s = NULL; osc_atom_u_getString(a, 0, &s); r += s; osc_mem_free(s); s = osc_atom_u_format(a); r += s; osc_mem_free(s); osc_atom_u_setInt64(a, k ? -5 : 1ll << 50); s = NULL; osc_atom_u_getString(a, 0, &s); r += s; osc_mem_free(s); osc_atom_u_free(a); return r; }
static std::string oNames(int k){ std::string r; for(int t = k ? 'a' : 'A'; t < (k ? 'f' : 'D'); t++){ const char *s = osc_typetag_str(t); r += s ? s : "-"; } const char *e = osc_error_string(k ? OSC_ERR_BADTYPETAG : OSC_ERR_NOBUNDLE); r += e ? e : "-"; return r; }
static std::string oReport(int k){ osc_error_handler((void *)(long)(20 + k), k ? "file.c" : "other_file.c", k ? "function" : "g", 12 + k, k ? OSC_ERR_NOBUNDLE : OSC_ERR_BADTYPETAG, k ? "%s of %d" : "%d/%s", k ? (void *)"text" : (void *)(long)5, k ? (void *)(long)9 : (void *)"longer text"); return ""; }
static std::string oDoc(int k){ t_osc_bndl_u *b = NULL; t_osc_err e = osc_expr_getDocForFunction((char *)(k ? "sin" : "join"), &b); std::string r = vc::fmt("%llx ", (long long)e); if(b){ long n = osc_bundle_u_nserialize(NULL, 0, b); char *p = (char *)osc_mem_alloc(n); osc_bundle_u_nserialize(p, n, b); r += H(p, n); osc_mem_free(p); osc_bundle_u_free(b); } return r; }
static std::string oCategory(int k){ char *p = NULL; long n = 0; t_osc_err e = osc_expr_getFunctionsForCategory((char *)(k ? "/conditional" : "/predicate"), &n, &p); std::string r = vc::fmt("%llx ", (long long)e); if(p) r += H(p, n); osc_mem_free(p); return r; }
static std::string oCategories(int){ t_osc_bndl_s *b = osc_expr_getCategories(); return b ? H(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b)) : std::string("none"); }
static std::string oQuote(int k){ char b[64]; osc_strfmt_quotedStringWithQuotedMeta(b, 64, (char *)(k ? "a\"b" : "\\x y")); std::string r(b); char *o = NULL; osc_strfmt_addQuotesAndQuoteMeta(3, (char *)(k ? "p\"q" : "uvw"), &o); r += o; osc_mem_free(o); return r; }
static std::string oFlatten(int k){ Bndl w; { Q q; w = Bndl{0, {Msg{"/n", {vb(land(k))}}}}; } t_osc_bndl_u *b; { b = mkB(w); } t_osc_bndl_u *d = NULL; osc_bundle_u_flatten(&d, b, 0, (char *)(k ? "/" : "."), 1); std::string r; if(d){ long n = osc_bundle_u_nserialize(NULL, 0, d); char *p = (char *)osc_mem_alloc(n); osc_bundle_u_nserialize(p, n, d); r = H(p, n); osc_mem_free(p); osc_bundle_u_free(d); } osc_bundle_u_free(b); return r; }
static const char *const SELF[][2] = {
	{"split(\" \", \"a b c\")", "split(\"::\", \"p::q::rst\")"},
	{"join(\"-\", \"x\", \"yz\")", "join(\"\", \"abc\", \"d\", \"e\")"},
	{"\"left\" + \"right\" + /x", "\"another \" + \"text\" + 2.5"},
	{"strfind(\"na\", \"banana\")", "strfind(\"o\", \"foo zoo\")"},
	{"strchar(\"word\", 2)", "strchar(\"other\", 0)"},
	{"strlen(\"four\")", "strlen(\"seventeen\")"},
	{"strcmp(\"a\", \"b\")", "strcmp(\"same\", \"same\")"},
	{"string(/x)", "string(2.75)"},
	{"readstring(\"/aa : 1\")", "readstring(\"/b : [2, \\\"t\\\"]\")"},
	{"match(\"/a*\", \"/abc\")", "match(\"/b?\", \"/xb\")"},
	{"strtotime(\"2020-01-02T03:04:05Z\")", "strtotime(\"1999-12-31T23:59:59.5Z\")"},
	{"/t = floattotime(3600.5)", "/t = floattotime(86399.)"},
	{"/t = settimetag(strtotime(\"2020-01-02T03:04:05Z\"))", "/u = gettimetag()"},
	{"float64(\"12.5\")", "float64(\"-3\")"},
	{"int32(\"12\") + uint8(7)", "int32(\"900\") + uint8(255)"},
	{"char(97)", "char(66)"},
	{"cast(\"f\", 3)", "cast(\"s\", 4.5)"},
	{"typetags(/x)", "typetags([1, \"a\"])"},
	{"/l = [1, 2, 3], /l[[1]] = \"s\"", "/m = [4, 5], /m[[0]] = [9, 9]"},
	{"[1, 2, 3][[0, 2]]", "aseq(1, 9, 2)[[1]]"},
	{"/n = {/p : 1}, /n./q = 2", "/o = {/r : \"s\", /t : 5.5}, /o./r = [1, 2]"},
	{"/n = {/p : 3}, /n./p", "/o = {/p : \"s\", /q : 1}, /o./p"},
	{"delete(/x)", "delete(/name), delete(/b/c)"},
	{"exists(/x)", "exists(/none)"},
	{"bound(/y)", "bound(/b/c)"},
	{"getaddresses()", "getaddresses()"},
	{"getmsgcount()", "getmsgcount()"},
	{"value(\"/x\") + 1", "value(\"/b/c\") - 1"},
	{"eval(\"/v = 1 + 2\")", "eval(\"/w = \\\"text\\\"\"), /w"},
	{"if(/x > 1, \"yes\", \"no\")", "if(0, 1, progn(/k = 5, /k + 1))"},
	{"/x ?? 4", "/none ?? \"default\""},
	{"/x += 4", "/x *= 3, /x -= 1"},
	{"/x++", "--/x"},
	{"map(lambda([a, b], a * b), [1, 2], [3, 4])", "map(lambda([a], a + \"!\"), [\"p\", \"q\"])"},
	{"apply(lambda([a], a + 1), /x)", "apply(\"max\", [1, 5, 3])"},
	{"lreduce(lambda([a, b], a - b), [1, 2, 3])", "lreduce(\"add\", [10, 20], 5)"},
	{"rreduce(lambda([a, b], a - b), [1, 2, 3])", "rreduce(\"sub\", [10, 20], 5)"},
	{"apply(lambda([a], apply(lambda([b], a * b), 3)), 2)", "apply(lambda([u], apply(lambda([v], u - v), 9)), 7)"},
	{"prog1(/f = 2, /x)", "prog1(/g = 1, /g)"},
	{"sort([3, 1, 2])", "sort(\"gt\", [5, 6, 4, 9])"},
	{"sort([\"b\", \"a\"])", "sortidx([5, 6, 4])"},
	{"median([5, 1, 3])", "median([2, 8])"},
	{"mean([1, 2, 6.])", "mean([10])"},
	{"extrema([5, 1, 3])", "extrema([2., 8])"},
	{"cumsum([1, 2])", "cumsum([.5, 1, 2])"},
	{"reverse([1, 2])", "reverse([\"x\", 2, \"z\"])"},
	{"interleave([1, 2], [3, 4])", "interleave([1], [2], [3])"},
	{"nfill(3, 7)", "nfill(2, \"t\")"},
	{"range([1, 2, 3])", "first([4]) + last([5, 6])"},
	{"rest([1, 2, 3])", "butlast([4, 5, 6, 7])"},
	{"dot([1, 2], [3, 4])", "cross([1, 2, 3], [4, 5, 6])"},
	{"det([1, 2, 3, 4])", "l2norm([3, 4])"},
	{"scale(5, 0, 10, 0, 1)", "clip(5, 1, 3)"},
	{"product([2, 3])", "sum([1, 2, 3])"},
	{"identity(3)", "identity(2)"},
	{"sin([.5, 1]) + lgamma(3.5)", "sin(2) + lgamma(-1.5)"},
	{"2^3 % 3 / 4 - 1", "5^2 % 7 / 2 + 3.5"},
	{"1 < 2 && 3 >= 4 || !0", "5 == 5. && 1 != 1"},
	{"mtof(60)", "ftom([440, 220])"},
	{"nonzero([0, 3, 4])", "nonzero([1, 0])"},
	{"unknown(1)", "another_unknown(2, 3)"},
	{"sin()", "cos()"},
	{"/a = = 1", "/bb = 1\n + ("},
	{"/q + 1", "\"s\" - 1"}
};
static const size_t NSELF = sizeof SELF / sizeof SELF[0];
static const std::vector<OpD> &ops(){ static const std::vector<OpD> v{{"build and serialize", oBuild}, {"print a serialized bundle", oText}, {"deserialize and print", oTextU}, {"parse text", oParse}, {"parse wrong text", oParseErr}, {"evaluate", oEval}, {"parse a wrong expression", oSyntax}, {"evaluate with an error", oEvalErr}, {"evaluate with lambdas", oLambda}, {"evaluate string functions", oString}, {"evaluate nested text", oNested}, {"evaluate with nested bundles", oBundleX}, {"evaluate address functions", oQuery}, {"evaluate folds", oFold}, {"evaluate statistics", oStats}, {"timetags", oTime}, {"match", oMatch}, {"dispatch", oDispatch}, {"query", oRset}, {"set operations", oSets}, {"remove a message", oEdit}, {"hash table", oHash}, {"byte checker", oSerial}, {"conversions", oNumbers}, {"names", oNames}, {"report an error", oReport}, {"document a function", oDoc}, {"list a category", oCategory}, {"list the categories", oCategories}, {"quote", oQuote}, {"flatten", oFlatten}}; return v; }
// ------------------------------------------------------------------ runs
static std::vector<char> snap[2];
static char *sec(int s){ return s ? __start_libobss : __start_libodata; } static size_t secLen(int s){ return s ? __stop_libobss - __start_libobss : __stop_libodata - __start_libodata; }
__attribute__((no_sanitize("address"))) static void rawcopy(char *d, const char *s, size_t n){ size_t k = 0; for(; k + 8 <= n; k += 8) *(volatile uint64_t *)(d + k) = *(const volatile uint64_t *)(s + k); for(; k < n; k++) ((volatile char *)d)[k] = ((const volatile char *)s)[k]; }
static void reset(){ for(int s = 0; s < 2; s++) if(secLen(s)) rawcopy(sec(s), snap[s].data(), secLen(s)); for(int t = 0; t < 2; t++){ __asan_poison_memory_region(arena[t], apos[t] + 64); apos[t] = 0; } }
struct Job { int t; int op; int k; std::string out; };
static void *body(void *x){ Job *j = (Job *)x; me = j->t; quiet = 1; if(!solo) fwait(j->t); quiet = 0; std::string o; { o = (size_t)j->op < ops().size() ? ops()[j->op].f(j->k) : evalText(SELF[j->op - ops().size()][j->k], j->k, 30 + j->k); } quiet = 1; j->out = o + " " + msgs[j->t]; int t = me; me = -1; fin[t] = 1; if(!solo) pass(1 - t); return NULL; }
static void start(pthread_t *th, Job *j){ pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stk[j->t], STACK); int r = pthread_create(th, &a, body, j); pthread_attr_destroy(&a); if(r) vc::fail("no thread: %d", r); }
static std::string alone(int t, int op, int k){ reset(); solo = true; freeRun = false; fin[0] = fin[1] = 0; cnt[0] = cnt[1] = 0; msgs[t].clear(); Job j{t, op, k}; pthread_t th; start(&th, &j); pthread_join(th, NULL); solo = false; return j.out; }
static void both(Job &a, Job &b, int first, const std::vector<long> &p){
	reset(); pre = &p; seg = 0; firstT = first; freeRun = false; fin[0] = fin[1] = 0; cnt[0] = cnt[1] = 0; msgs[0].clear(); msgs[1].clear(); ticks = 0; turn = first; pthread_t x, y; start(&x, &a); start(&y, &b); pthread_join(x, NULL); pthread_join(y, NULL); vc::trans(); if(freeRun) vc::count("abandoned to the operating system's scheduler");
}
std::string bounds(){ return vc::fmt("%zu library activities, every pair of them (each also with itself), and %zu expressions, each with another one using the same functions, in two threads on data of their own, from a fresh process image; switches at every call of the user's allocator and error handler, at printing, and at every access to memory that both touch and one writes: all schedules with %s; activities that build the whole function catalogue are not preempted when they share no written memory", ops().size(), NSELF, vc::tier ? "one preemption, two for pairs of activities with at most 8000 pairs of points, three at conflicting accesses" : "one preemption (two at conflicting accesses)"); }
void warmup(){}
static void prepare(){
	osc_set_mem(u_alloc, u_free, u_resize); osc_error_setHandler(u_err);
	for(int t = 0; t < 2; t++){ arena[t] = (char *)mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); stk[t] = (char *)mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); aLo[t] = (U)arena[t]; sLo[t] = (U)stk[t]; __asan_poison_memory_region(arena[t], ARENA); apos[t] = 0; }
	for(int s = 0; s < 2; s++){ snap[s].resize(secLen(s) + 8); if(secLen(s)){ rawcopy(snap[s].data(), sec(s), secLen(s)); shared_.push_back({(U)sec(s), secLen(s)}); } }
	dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) -> int { if(!i->dlpi_name || !strstr(i->dlpi_name, "libc.so")) return 0; for(int k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_W) shared_.push_back({(U)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_memsz}); return 0; }, NULL);
}
void explore(){
	{ cpu_set_t c, d; if(!sched_getaffinity(0, sizeof c, &c)){ int n = CPU_COUNT(&c), k = getpid() % n; for(int i = 0; i < CPU_SETSIZE; i++) if(CPU_ISSET(i, &c) && !k--){ CPU_ZERO(&d); CPU_SET(i, &d); sched_setaffinity(0, sizeof d, &d); break; } } }   // both threads of a worker on one processor: handing over is cheaper
	prepare(); size_t N = ops().size() + NSELF, X = ops().size();
	auto name = [&](size_t o){ return o < X ? std::string(ops()[o].name) : vc::fmt("%s / %s", vc::q(SELF[o - X][0]).c_str(), vc::q(SELF[o - X][1]).c_str()); }; std::vector<std::string> want[2]; std::vector<long> pts[2];
	std::vector<std::unordered_map<U, int>> fp[2];
	for(int t = 0; t < 2; t++) for(size_t o = 0; o < N; o++){ acc[0].clear(); acc[1].clear(); conflict.clear(); mode = 0; want[t].push_back(alone(t, o, t)); pts[t].push_back(cnt[t]); fp[t].push_back(acc[t]); }
	for(size_t o = 0; o < N; o++) CASE(vc::fmt("%s, alone", name(o).c_str()), { for(int t = 0; t < 2; t++){ mode = 0; std::string g = alone(t, o, t); CHECK(g == want[t][o], "gives %s, then %s", want[t][o].c_str(), g.c_str()); vc::state(g); vc::count("points", pts[t][o]); if(getenv("PTS")) fprintf(stderr, "%s %d %ld %s\n", name(o).c_str(), t, pts[t][o], g.c_str()); } });
	for(size_t a = 0; a < N; a++) for(size_t b = 0; b < N; b++) if((a < X && b < X) || a == b) CASE(vc::fmt("%s with %s", name(a).c_str(), name(b).c_str()), {
		size_t op[2] = {a, b};
		auto once = [&](int first, const std::vector<long> &p){
			Job j[2] = {{0, (int)a, 0}, {1, (int)b, 1}}; both(j[0], j[1], first, p); std::string s; for(long x : p) s += vc::fmt(" %ld", x);
			for(int t = 0; t < 2; t++) CHECK(j[t].out == want[t][op[t]], "thread %d first, switching %sat%s: %s gives %s, alone %s", first, mode ? "at conflicts " : "", s.empty() ? " the end" : s.c_str(), name(op[t]).c_str(), j[t].out.c_str(), want[t][op[t]].c_str());
		};
		acc[0] = fp[0][a]; acc[1] = fp[1][b]; conflict.clear(); for(auto &x : acc[0]){ auto y = acc[1].find(x.first); if(y != acc[1].end() && ((x.second | y->second) & 2)) conflict.insert(x.first); }
		uint64_t sch = 0;
		bool many = pts[0][a] + pts[1][b] > 700 && conflict.empty();   // nothing in common: only the order can matter
		for(int m = 1; m >= 0; m--){
			mode = m; int P = many ? 0 : m ? 2 + vc::tier : 1 + (vc::tier && pts[0][a] * pts[1][b] <= 8000); if(m && conflict.empty()) continue;
			for(int first = 0; first < 2; first++){
				// depth first over preemption vectors; a run tells how many points each thread has
				std::function<void(std::vector<long> &)> go = [&](std::vector<long> &p){
					once(first, p); sch++; if((int)p.size() == P) return; int t = (first + p.size()) & 1; long from = 0; for(size_t k = p.size(); k-- > 0;) if((k & 1) == (p.size() & 1)){ from = p[k] + 1; break; }
					long n = cnt[t]; for(long i = from; i < n; i++){ p.push_back(i); go(p); p.pop_back(); }
				};
				std::vector<long> p; go(p);
			}
		}
		if(conflict.size()) vc::count("pairs that share written memory");
		vc::count("schedules", sch);
	});
}
