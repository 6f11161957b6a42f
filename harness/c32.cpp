// C32: error reports
#include "stmts.hpp"
#include <unistd.h>
#include <fcntl.h>
extern "C" {
#include "osc_error.h"
int osc_error_defaultHandler(void *context, const char * const errorstr);
}
const char *PROP = "C32";
static int LT(){ return vc::tier ? 6 : 5; }
static int LV(){ return vc::tier ? 6 : 5; }
std::string bounds(){ return vc::fmt("every combination of 13 file names, 13 function names (up to 9000 characters, with percent signs), 5 line numbers, 24 error codes and 12 messages; all codes to 0x2100; all addresses of up to %d characters over 8; every sequence of up to %d tokens over 16, and every statement on every start bundle, with the caller's context in every report", LV(), LT()); }
struct Rep { void *ctx; std::string s; };
static std::vector<Rep> reps; static int answer; static const char *over;
static int handler(void *ctx, const char *const s){ vc::in_alloc++; over = memchr(s, 0, 4096) ? NULL : "more than 4095 characters"; reps.push_back(Rep{ctx, std::string(s, strnlen(s, 5000))}); vc::in_alloc--; return answer; }
void warmup(){ std::vector<EX> r; }
static const std::vector<std::pair<uint64_t, bool>> &codes(){ static std::vector<std::pair<uint64_t, bool>> c; if(c.empty()){ for(uint64_t k : {OSC_ERR_NONE, OSC_ERR_BUNDLETOOSMALL, OSC_ERR_NOBUNDLEID, OSC_ERR_MSGTOOSMALL, OSC_ERR_MALFORMEDADDRESS, OSC_ERR_NOBUNDLE, OSC_ERR_OUTOFMEM, OSC_ERR_NULLPTR, OSC_ERR_BADTYPETAG, OSC_ERR_MALFORMEDMSG, OSC_ERR_INVAL, OSC_ERR_EXPPARSE, OSC_ERR_MSGTOOLARGE, OSC_ERR_INVALIDCHARINADDRESS, OSC_ERR_PARSER_FUNCTIONNOTFOUND, OSC_ERR_EXPR_FUNCTIONNOTFOUND, OSC_ERR_EXPR_ADDRESSUNBOUND, OSC_ERR_EXPR_ARGCHK, OSC_ERR_EXPR_EVAL, OSC_ERR_PARSER}) c.push_back({k, true}); for(uint64_t k : {0x3ull, 0x103ull, 0x2000ull, 0xffffffffffffffffull}) c.push_back({k, false}); } return c; }
static void report(const char *file, const char *fn, int line, uint64_t code, int kind){
	std::string w; if(file) w += std::string(file) + ":\n"; if(fn) w += std::string(fn) + "(): "; if(line > 0) w += vc::fmt("%d: ", line); if(code) w += std::string(osc_error_string(code)) + ": \n";
	void *ctx = (void *)&w; reps.clear(); over = NULL; answer = (int)(code * 7 + kind + 3); int r = -1; std::string m; static const std::string big(5000, 'B'), pct(100, '%');
	switch(kind){
	case 0: r = osc_error_handler(ctx, file, fn, line, code, NULL); break;
	case 1: r = osc_error_handler(ctx, file, fn, line, code, ""); break;
	case 2: m = "plain text"; r = osc_error_handler(ctx, file, fn, line, code, "plain text"); break;
	case 3: m = "100% of %d\n"; r = osc_error_handler(ctx, file, fn, line, code, "100%% of %%d\n"); break;
	case 4: m = "f: argument -3 of /a is int32"; r = osc_error_handler(ctx, file, fn, line, code, "%s: argument %d of %s is %s", "f", -3, "/a", "int32"); break;
	case 5: m = "%s%n%d"; r = osc_error_handler(ctx, file, fn, line, code, "%s", "%s%n%d"); break;
	case 6: m = big; r = osc_error_handler(ctx, file, fn, line, code, "%s", big.c_str()); break;
	case 7: m = pct; r = osc_error_handler(ctx, file, fn, line, code, "%s", pct.c_str()); break;
	case 8: m = "c 7.500000 18446744073709551615 0x10"; r = osc_error_handler(ctx, file, fn, line, code, "%c %f %llu 0x%x", 'c', 7.5, 18446744073709551615ull, 16); break;
	case 9: m = big; r = osc_error_handler(ctx, file, fn, line, code, big.c_str()); break;
	case 10: m = "a b c d e f g h i j"; r = osc_error_handler(ctx, file, fn, line, code, "%s %s %s %s %s %s %s %s %s %s", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j"); break;
	case 11: m = "\xc3\xa9 \x01\t"; r = osc_error_handler(ctx, file, fn, line, code, "\xc3\xa9 %s", "\x01\t"); break;
	}
	vc::trans(); w = (w + m).substr(0, 4095); CHECK(reps.size() == 1, "%zu reports", reps.size()); CHECK(!over, "a report of %s", over); CHECK(reps[0].ctx == ctx, "the handler gets another context"); CHECK(r == answer, "the handler returns %d, the report %d", answer, r); CHECK(reps[0].s == w, "the report is %s, want %s", vc::q(reps[0].s).c_str(), vc::q(w).c_str()); vc::state(w);
}
static std::string s8(int n, const char *pat){ std::string s; while((int)s.size() < n) s += pat; return s.substr(0, n); }
static void said(const std::string &what, void *ctx, bool must){ vc::trans(); if(must) CHECK(!reps.empty(), "%s fails without a report", what.c_str()); CHECK(!over, "%s: a report of %s", what.c_str(), over); for(auto &r : reps){ CHECK(r.ctx == ctx, "%s: a report has another context: %s", what.c_str(), vc::q(r.s).c_str()); CHECK(!r.s.empty(), "%s: an empty report", what.c_str()); } vc::count("reports", reps.size()); }
static bool parse(const std::string &s){
	std::vector<EX> w; bool more = false, ok = refExpr(s, w, &more); Buf t(s + std::string(1, 0)); t_osc_expr *f = NULL; int here; reps.clear(); over = NULL; t_osc_err e = osc_expr_parser_parseExpr(t.p, &f, &here);
	CHECK((e == OSC_ERR_NONE) == ok, "%s is %s", vc::q(s).c_str(), ok ? "rejected" : "accepted"); said(vc::q(s), &here, e != OSC_ERR_NONE); if(ok) CHECK(reps.empty(), "%s is parsed, but reported: %s", vc::q(s).c_str(), vc::q(reps[0].s).c_str()); else { auto bare = [](const std::string &t){ std::string r; for(char x : t) if(!strchr(" \n->", x)) r += x; return r; }; bool whole = false, cut = false; std::string want = bare(s); for(auto &r : reps){ whole |= bare(r.s).find(want) != std::string::npos; cut |= r.s.size() >= 4000; } CHECK(whole || cut, "%s is rejected and no report quotes it: %s", vc::q(s).c_str(), vc::q(reps[0].s).c_str()); vc::state(s); } if(f) osc_expr_free(f);
	return more;
}
static void eval(const std::string &s, const Bndl &b, const char *pick){
	Expr x(s); if(!x.f) vc::fail("%s", s.c_str()); std::string by = enc(b); int here; std::string what = s + " on " + str(b); void *ctx = pick ? (void *)pick : (void *)&here;
	char *p = (char *)osc_mem_alloc(by.size()); memcpy(p, by.data(), by.size()); long n = by.size();
	for(t_osc_expr *e = x.f; e; e = osc_expr_next(e)){ t_osc_atom_ar_u *o = NULL; reps.clear(); over = NULL; int r = osc_expr_eval(e, &n, &p, &o, ctx); if(o) osc_atom_array_u_free(o); said(what, ctx, r != 0); vc::count(r ? "failing evaluations" : "succeeding evaluations"); if(!r && !reps.empty()) vc::count("reports of succeeding evaluations"); if(r) break; }
	osc_mem_free(p); vc::state(what);
}
void explore(){
	osc_error_setHandler(handler);
	std::vector<std::string> names{"", "file.c", "%s", "%n%n%n%s%s", "100%", "a b/c\\d"}; for(int n : {4087, 4093, 4094, 4095, 4096, 4097, 9000}) names.push_back(s8(n, n % 2 ? "n" : "%s")); std::vector<const char *> nm{NULL}; for(auto &s : names) nm.push_back(strdup(s.c_str()));
	for(auto *f : nm) for(auto *g : nm) CASE(vc::fmt("reports from %.20s %.20s, %zu %zu", f ? f : "nowhere", g ? g : "no function", f ? strlen(f) : 0, g ? strlen(g) : 0), { for(int line : {-1, 0, 1, 77, 2147483647}) for(auto &c : codes()) for(int k = 0; k < 12; k++) report(f, g, line, c.first, k); });
	CASE("lengths around the limit", { for(int n = 3900; n < 4200; n++) for(int k : {0, 2, 4, 6}){ std::string a = s8(n, "%d"), b(4096 - n > 0 ? 4096 - n : 1, 'f'); report(a.c_str(), NULL, 5, 0x21, k); report(NULL, a.c_str(), -1, 0, k); report(a.c_str(), b.c_str(), 12345, 0x20, k); } });
	CASE("the names of the codes", { std::map<std::string, uint64_t> seen; for(uint64_t c = 0; c < 0x2100; c++){ char *s = osc_error_string(c); vc::trans(); CHECK(s && *s, "code %lx has no text", (unsigned long)c); bool known = false; for(auto &k : codes()) known |= k.first == c && k.second; CHECK(known == (std::string(s) != "unrecognized error code"), "code %lx is %s", (unsigned long)c, s); if(known && !seen.emplace(s, c).second) CHECK(c == 0x101 && seen[s] == 0x100, "codes %lx and %lx are both %s", (unsigned long)seen[s], (unsigned long)c, s); } });
	CASE("a handler that is absent, and one that is put back", { osc_error_setHandler(NULL); CHECK(osc_error_handler(NULL, "f", "g", 1, 1, "%s", "x") == 0, "no handler"); { int e[2]; fflush(stderr); int keep = dup(2); CHECK(!pipe(e), "pipe"); dup2(e[1], 2); t_osc_expr *f = NULL; osc_expr_parser_parseExpr((char *)"1 +", &f, NULL); fflush(stderr); dup2(keep, 2); close(keep); close(e[1]); char c; CHECK(read(e[0], &c, 1) == 0, "a report is written although there is no handler"); close(e[0]); } osc_error_setHandler(handler); report("f", "g", 1, 1, 4); });
	CASE("the default handler", { int e[2]; CHECK(!pipe(e), "pipe"); for(const char *s : {"text", "", "100% %s %n"}){ fflush(stderr); int keep = dup(2); dup2(e[1], 2); osc_error_setHandler(osc_error_defaultHandler); int r = osc_error_handler(NULL, NULL, NULL, -1, 0, "%s", s); fflush(stderr); dup2(keep, 2); close(keep); osc_error_setHandler(handler); char buf[64]; ssize_t k = read(e[0], buf, sizeof buf); std::string w = std::string(s) + "\n"; CHECK(k == (ssize_t)w.size() && std::string(buf, k) == w && r == (int)w.size(), "the default handler writes %s", vc::q(std::string(buf, k < 0 ? 0 : k)).c_str()); } close(e[0]); close(e[1]); });
	{ static const char al[] = "/a #*\n\xc3"; std::string all(al, sizeof al - 1); for(char c : all + std::string(1, 0)) CASE(vc::fmt("addresses that begin with byte %d", (unsigned char)c), { std::string s; auto one = [&]{ Buf t(s + std::string(1, 0)); t_osc_err e = osc_error_validateAddress(t.p); vc::trans(); uint64_t w = s.empty() || s[0] != '/' || s.size() < 2 ? OSC_ERR_MALFORMEDADDRESS : s.find('#') != std::string::npos || s.find(' ') != std::string::npos ? OSC_ERR_INVALIDCHARINADDRESS : OSC_ERR_NONE; CHECK(e == w, "%s: %lx, want %lx", vc::q(s).c_str(), (unsigned long)e, (unsigned long)w); vc::state(s); }; if(!c){ one(); CHECK(osc_error_validateAddress(NULL) == OSC_ERR_NULLPTR, "no address"); } else { s = c; std::function<void()> go = [&]{ one(); if((int)s.size() < LV()) for(char d : all){ s += d; go(); s.pop_back(); } }; go(); } }); }
	{ static const std::vector<std::string> T{"/a", "1", "x", "sin(", "nosuch(", "(", ")", "[", "]", ",", "=", "lambda([a],", "+", "\"s\"", "\"", ";"}; for(auto &a : T) for(auto &b : T) CASE("texts " + a + " " + b + " ...", { if(&b == &T[0]) parse(a); std::vector<EX> r; bool more = false; refExpr(a, r, &more); std::function<void(const std::string &, int)> g = [&](const std::string &s, int n){ if(!parse(s) || n == LT()) return; for(auto &x : T) g(s + " " + x, n + 1); }; if(more) g(a + " " + b, 2); CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); }); }
	CASE("reports that quote long texts", { for(int n : {100, 4000, 4090, 4096, 5000, 20000}) for(const char *h : {"/a = ", "", "nosuch(", "\""}) for(const char *u : {"%s", "%n", "x", "\\\"", "\n"}) parse(std::string(h) + s8(n, u)); });
	for(auto &t : themes()) for(auto &s : t.st) CASE(vc::fmt("%s: ", t.name) + s, { for(auto &b : starts()){ eval(s, b, NULL); eval(s, b, s.c_str()); } CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); });
	static const char *OP[] = {"/x", "/y", "/nope", "\"/x\"", "2", "nil", "[]", "/b", "lambda([p], p)", "/y + /nope", "\"abc\"", "-1.5", "[1, 2.5, \"s\"]", "/l", "true", "1000000"};
	for(auto &a : ARITY) CASE(std::string("arguments of ") + a.n, { if(isalpha(a.n[0]) && strcmp(a.n, "lambda") && strcmp(a.n, "quote")){ auto B = starts(); B.resize(2); int lim = a.o < 0 ? std::max(a.r, 2) : a.r + a.o; for(int n = a.r; n <= lim && n <= 3; n++){ std::vector<int> ix(n, 0); for(;;){ std::string s = std::string(a.n) + "("; for(int k = 0; k < n; k++) s += (k ? ", " : "") + std::string(OP[ix[k]]); s += ")"; if(Expr(s).f) for(auto &b : B) eval(s, b, NULL); int k = 0; while(k < n && ++ix[k] == 16) ix[k++] = 0; if(k == n) break; } } CHECK(vc::live() == 0, "%ld blocks remain: %s", vc::live(), vc::live_desc().c_str()); } });
}
