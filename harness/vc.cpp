#include "vc.hpp"
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <sanitizer/asan_interface.h>
extern "C" {
void osc_set_mem(void *(*)(size_t), void (*)(void*), void *(*)(void*, size_t));
void osc_error_setHandler(int (*)(void*, const char * const));
}
namespace vc {
int tier; bool replaying; unsigned char fill = 0xA5; bool track;
long errors_reported; std::string last_error;

struct FailRec { uint64_t idx; char desc[1600]; char msg[1200]; };
static const int MAXF = 16, MAXW = 64, MAXC = 64;
struct Worker {
	std::atomic<uint64_t> cur, beat, cases, trans, done, nfail, enumerated;
	std::atomic<int> incase, capped;
	char desc[1600];
	FailRec f[MAXF];
	struct { char name[48]; uint64_t n; } cnt[MAXC];
	char sample[24][400]; std::atomic<int> nsample;
};
static const uint64_t NSTATE = 1ull << 24;
struct Shared { std::atomic<uint64_t> nstates, statefull; Worker w[MAXW]; std::atomic<uint64_t> st[NSTATE]; };
static const uint64_t NCLAIM = 1 << 26; static std::atomic<uint8_t> *claims;   // which worker takes a case is decided when it is reached
static Shared *S; static Worker *W; static int wid, nw; static uint64_t idx, resume_at, only; static bool have_only;
static double deadline; static bool only_failed; static std::string only_msg, only_desc;
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void fail(const char *f, ...){ char b[1100]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b}; }
std::string fmt(const char *f, ...){ char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string q(const std::string &s){ std::string r = "\""; for(unsigned char c : s){ if(c == '"' || c == '\\'){ r += '\\'; r += c; } else if(c < 32 || c > 126) r += fmt("\\x%02x", c); else r += c; } return r + "\""; }
std::string hex(const void *p, size_t n){ std::string r; for(size_t i = 0; i < n; i++) r += fmt("%02x", ((const unsigned char *)p)[i]); return r; }

bool want(){
	uint64_t i = idx++;
	if(have_only) return i == only;
	if((i & 4095) == 0) W->beat++;
	if(i < resume_at) return false;
	if(i >= NCLAIM ? i % nw != (uint64_t)wid : claims[i].load(std::memory_order_relaxed) || claims[i].exchange(1)) return false;
	return true;
}
static unsigned budget_ctr;
bool stop(){
	if(have_only) return idx > only;
	if(W->nfail >= (uint64_t)MAXF){ return true; }
	if((++budget_ctr & 1023) == 0 && deadline > 0 && now() > deadline){ W->capped = 1; }
	return W->capped;
}
// ---------------------------------------------------------------- allocator
struct Hdr { Hdr *prev, *next; uint64_t size; uint64_t magic; };
static const uint64_t MAGIC = 0x5ca1ab1e0ddba11ull;
static Hdr head; static long nlive; long foreign_frees; __thread int in_alloc;
struct InA { InA(){ in_alloc++; } ~InA(){ in_alloc--; } };
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static inline void unpoison(Hdr *h){ ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr)); }
static inline void poison(Hdr *h){ ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr)); }
static void *v_alloc(size_t n){ InA ia;
	Hdr *h = (Hdr *)malloc(sizeof(Hdr) + n);
	if(!h) return NULL;
	memset(h + 1, fill, n);
	h->size = n; h->magic = MAGIC; h->prev = h->next = NULL;
	if(track){
		pthread_mutex_lock(&mtx);
		h->next = head.next; h->prev = &head;
		if(head.next){ unpoison(head.next); head.next->prev = h; poison(head.next); }
		head.next = h; nlive++;
		pthread_mutex_unlock(&mtx);
	}
	poison(h);
	return h + 1;
}
static void v_free(void *p){ InA ia;
	if(!p) return;
	Hdr *h = (Hdr *)p - 1;
	// a block that is not ours, or was freed before: let ASan report it through free()
	if(__asan_address_is_poisoned(p) && __asan_region_is_poisoned(h, sizeof(Hdr)) == NULL){ foreign_frees++; free(p); return; }
	unpoison(h);
	if(h->magic != MAGIC){ foreign_frees++; free(p); return; }
	pthread_mutex_lock(&mtx);
	if(h->prev){
		if(h->prev != &head) unpoison(h->prev);
		h->prev->next = h->next;
		if(h->prev != &head) poison(h->prev);
		if(h->next){ unpoison(h->next); h->next->prev = h->prev; poison(h->next); }
		nlive--;
	}
	pthread_mutex_unlock(&mtx);
	free(h);
}
static void *v_resize(void *p, size_t n){
	if(!p) return v_alloc(n);
	Hdr *h = (Hdr *)p - 1;
	unpoison(h); size_t o = h->size; uint64_t m = h->magic; poison(h);
	if(m != MAGIC) return realloc(p, n);
	void *r = v_alloc(n);
	if(!r) return NULL;
	memcpy(r, p, o < n ? o : n);
	v_free(p);
	return r;
}
void install_allocator(){ osc_set_mem(v_alloc, v_free, v_resize); }
long live(){ return nlive; }
std::string live_desc(){
	std::string r; int k = 0;
	for(Hdr *h = head.next; h && k < 6; k++){ unpoison(h); Hdr *n = h->next;
		r += fmt("[%lu bytes: %s] ", (unsigned long)h->size, hex(h + 1, h->size < 24 ? h->size : 24).c_str());
		poison(h); h = n; }
	return r;
}
void reset_blocks(){
	Hdr *h = head.next; head.next = NULL; nlive = 0;
	while(h){ unpoison(h); Hdr *n = h->next; free(h); h = n; }
}
static int err_handler(void *, const char * const s){ InA ia; errors_reported++; last_error = s ? s : ""; return 0; }

// ---------------------------------------------------------------- cases
void enter(const std::string &d){
	errors_reported = 0; foreign_frees = 0; last_error.clear(); fill = 0xA5;
	if(have_only){ only_desc = d; track = true; alarm(120); return; }
	size_t n = d.size() < sizeof(W->desc) - 1 ? d.size() : sizeof(W->desc) - 1;
	memcpy(W->desc, d.data(), n); W->desc[n] = 0;
	W->cur = idx - 1; W->incase = 1; W->beat++;
	uint64_t c = W->cases;
	if(((c & (c - 1)) == 0 && (c > 256 || c == 0)) && W->nsample < 24){ snprintf(W->sample[W->nsample], 400, "%s", d.c_str()); W->nsample++; }
	track = true;
}
void leave(){
	track = false; reset_blocks();
	if(have_only){ alarm(0); return; }
	W->cases++; W->incase = 0;
}
static void record(Worker *w, const char *desc, const char *msg){
	uint64_t k = w->nfail;
	if(k < (uint64_t)MAXF){
		w->f[k].idx = w->cur;
		snprintf(w->f[k].desc, sizeof w->f[k].desc, "%s", desc);
		snprintf(w->f[k].msg, sizeof w->f[k].msg, "%s", msg);
	}
	w->nfail = k + 1;
}
void failed(const std::string &m){
	if(have_only){ only_failed = true; only_msg = m; return; }
	record(W, W->desc, m.c_str());
}
void trans(uint64_t n){ if(W) W->trans += n; }
void count(const char *name, uint64_t n){
	if(!W) return;
	for(int i = 0; i < MAXC; i++){
		if(!W->cnt[i].name[0]) snprintf(W->cnt[i].name, 48, "%s", name);
		if(!strcmp(W->cnt[i].name, name)){ W->cnt[i].n += n; return; }
	}
}
void state(uint64_t h){
	if(!S || have_only) return;
	if(!h) h = 1;
	uint64_t k = (h * 0x9e3779b97f4a7c15ull) >> 40;
	for(int i = 0; i < 4096; i++){
		uint64_t e = S->st[(k + i) & (NSTATE - 1)].load(std::memory_order_relaxed);
		if(e == h) return;
		if(!e){
			uint64_t z = 0;
			if(S->st[(k + i) & (NSTATE - 1)].compare_exchange_strong(z, h)){ S->nstates++; return; }
			if(z == h) return;
		}
	}
	S->statefull = 1;
}
}
using namespace vc;
static std::string jesc(const std::string &s){
	std::string r = "\"";
	for(unsigned char c : s){ if(c == '"' || c == '\\'){ r += '\\'; r += (char)c; } else if(c < 32 || c > 126) r += fmt("\\u%04x", c); else r += (char)c; }
	return r + "\"";
}
static std::string asan_summary(const char *path){
	FILE *f = fopen(path, "r"); if(!f) return "";
	std::string head, sum, frames; char line[2048]; int nf = 0;
	while(fgets(line, sizeof line, f)){
		if(strstr(line, "ERROR: AddressSanitizer")){ const char *p = strstr(line, "AddressSanitizer"); head = p; nf = 0; frames.clear(); }
		char *p = strstr(line, "#"); 
		if(p && strstr(line, " in ") && nf < 8){ char *in = strstr(line, " in ") + 4; char *sp = strchr(in, ' '); if(sp) *sp = 0; if(*in != '_' ){ if(nf) frames += " < "; frames += in; nf++; } }
	}
	fclose(f);
	while(!head.empty() && (head.back() == '\n')) head.pop_back();
	size_t at = head.find(" on address"); if(at != std::string::npos) head.resize(at);
	at = head.find(" (pc 0x"); if(at != std::string::npos) head.resize(at);
	return head + (frames.empty() ? "" : " at " + frames);
}
static void worker_main(){
	install_allocator();
	osc_error_setHandler(err_handler);
	track = false; warmup();
	idx = 0;
	explore();
}
int main(int argc, char **argv){
	std::string out, errdir = "/tmp"; double budget = 0; nw = 8; double hang = 40;
	for(int i = 1; i < argc; i++){
		std::string a = argv[i];
		if(a == "--tier") tier = !strcmp(argv[++i], "thorough");
		else if(a == "--out") out = argv[++i];
		else if(a == "--tmp") errdir = argv[++i];
		else if(a == "--budget") budget = atof(argv[++i]);
		else if(a == "--workers") nw = atoi(argv[++i]);
		else if(a == "--hang") hang = atof(argv[++i]);
		else if(a == "--replay"){ have_only = true; only = strtoull(argv[++i], 0, 10); }
	}
	if(have_only){
		replaying = true; static Worker dummy; W = &dummy; nw = 1;
		int so = dup(1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
		worker_main();
		fflush(stdout);
		if(only_desc.empty()){ dprintf(so, "NOCASE\n"); return 4; }
		dprintf(so, "CASE %s\n", only_desc.c_str());
		if(only_failed){ dprintf(so, "FAILED %s\n", only_msg.c_str()); return 3; }
		dprintf(so, "PASSED\n"); return 0;
	}
	if(nw > MAXW) nw = MAXW;
	S = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(S == MAP_FAILED){ perror("mmap"); return 2; }
	claims = (std::atomic<uint8_t> *)mmap(NULL, NCLAIM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if((void *)claims == MAP_FAILED){ perror("mmap"); return 2; }
	double t0 = now(); if(budget > 0) deadline = t0 + budget;
	pid_t pid[MAXW]; uint64_t lastbeat[MAXW]; double lastt[MAXW]; int restarts[MAXW] = {0}; bool running[MAXW];
	auto spawn = [&](int k, uint64_t from){
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if(p == 0){
			wid = k; W = &S->w[k]; resume_at = from;
			int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1);
			int e = open(fmt("%s/w%d.err", errdir.c_str(), k).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2);
			worker_main();
			W->enumerated = idx; W->done = 1;
			_exit(0);
		}
		pid[k] = p; lastbeat[k] = S->w[k].beat; lastt[k] = now(); running[k] = true;
	};
	for(int k = 0; k < nw; k++) spawn(k, 0);
	int alive = nw; bool broken = false;
	while(alive){
		usleep(3000);
		for(int k = 0; k < nw; k++){
			if(!running[k]) continue;
			Worker *w = &S->w[k]; int st; bool died = false; std::string why;
			if(waitpid(pid[k], &st, WNOHANG) == pid[k]){
				if(w->done){ running[k] = false; alive--; continue; }
				died = true;
				why = asan_summary(fmt("%s/w%d.err", errdir.c_str(), k).c_str());
				if(why.empty()) why = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exited with status %d", WEXITSTATUS(st));
			}else{
				uint64_t b = w->beat; double t = now();
				if(b != lastbeat[k]){ lastbeat[k] = b; lastt[k] = t; }
				else if(t - lastt[k] > hang){ kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); died = true; why = fmt("no progress for %.0f s (hang)", hang); }
			}
			if(!died) continue;
			if(!w->incase){ fprintf(stderr, "worker %d died outside a case: %s\n", k, why.c_str()); broken = true; running[k] = false; alive--; continue; }
			record(w, w->desc, why.c_str()); w->cases++; w->incase = 0;
			if(++restarts[k] >= MAXF || w->nfail >= (uint64_t)MAXF){ running[k] = false; alive--; w->capped = 1; continue; }
			spawn(k, w->cur + 1);
		}
	}
	double wall = now() - t0;
	uint64_t cases = 0, tr = 0, en = 0, nf = 0; int capped = 0; std::map<std::string, uint64_t> cnt; std::vector<std::string> samples;
	std::string fl;
	for(int k = 0; k < nw; k++){
		Worker *w = &S->w[k];
		cases += w->cases; tr += w->trans; if(w->enumerated > en) en = w->enumerated; nf += w->nfail; capped |= w->capped; if(w->nfail >= (uint64_t)MAXF) capped = 1;
		for(int i = 0; i < MAXC && w->cnt[i].name[0]; i++) cnt[w->cnt[i].name] += w->cnt[i].n;
		for(int i = 0; i < w->nsample; i++) samples.push_back(w->sample[i]);
		for(uint64_t i = 0; i < w->nfail && i < (uint64_t)MAXF; i++)
			fl += fmt("%s{\"idx\":%lu,\"desc\":", fl.empty() ? "" : ",", (unsigned long)w->f[i].idx) + jesc(w->f[i].desc) + ",\"msg\":" + jesc(w->f[i].msg) + "}";
	}
	std::string js = fmt("{\"broken\":%d,\"cases\":%lu,\"enumerated\":%lu,\"transitions\":%lu,\"states\":%lu,\"statefull\":%d,\"nfail\":%lu,\"capped\":%d,\"wall\":%.3f,\"bounds\":", broken, cases, en, tr, (unsigned long)S->nstates, (int)S->statefull, nf, capped, wall) + jesc(bounds());
	js += ",\"outcomes\":{"; bool first = true;
	for(auto &p : cnt){ js += (first ? "" : ",") + jesc(p.first) + fmt(":%lu", p.second); first = false; }
	js += "},\"samples\":["; first = true; size_t ns = 0;
	for(auto &s : samples){ if(ns++ > 40) break; js += (first ? "" : ",") + jesc(s); first = false; }
	js += "],\"failures\":[" + fl + "]}\n";
	FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
	fputs(js.c_str(), f); if(f != stdout) fclose(f);
	return broken ? 2 : 0;
}
