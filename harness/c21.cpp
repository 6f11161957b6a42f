// C21: the expression parser against a reference parser
#include "expr.hpp"
#include "forms.hpp"
const char *PROP = "C21";
static int LT(){ return vc::tier ? 8 : 6; }
static int LS(){ return vc::tier ? 8 : 6; }
static int LC(){ return vc::tier ? 4 : 3; }
std::string bounds(){ return vc::fmt("all viable sequences of up to %d tokens over 20 operators and operands and of up to %d tokens over 22 structural tokens (a sequence is extended as long as it is the beginning of an expression, and every wrong next token is tried), every chain of three infix operators with every prefix, grouping and ternary position, all texts of up to %d characters over 30, literals of up to %d characters, 30 constructs (identifiers, addresses, strings, white space, comments, argument lists, chains of operators, nesting, parameters) at every size to %d", LT(), LS(), LC(), LC() + 2, vc::tier ? 700 : 300); }
void warmup(){}
static uint64_t okc, badc;
static bool check(const std::string &s){
	std::vector<EX> w; bool more = false, ok = refExpr(s, w, &more); Buf t(s + std::string(1, 0)); t_osc_expr *f = (t_osc_expr *)&w; long er = vc::errors_reported; t_osc_err e = osc_expr_parser_parseExpr(t.p, &f, NULL); vc::trans();
	CHECK(t.s() == s + std::string(1, 0), "%s: the parser changed its text", vc::q(s).c_str());
	if(ok){ okc++; CHECK(e == OSC_ERR_NONE, "%s is rejected, it means %s", vc::q(s).c_str(), str(w).c_str()); std::string g = str(rdXs(f)), x = str(w); CHECK(g == x, "%s parses as %s, it means %s", vc::q(s).c_str(), g.c_str(), x.c_str()); vc::state(x); osc_expr_free(f); }
	else { badc++; CHECK(e != OSC_ERR_NONE, "%s is accepted as %s", vc::q(s).c_str(), str(rdXs(f)).c_str()); CHECK(!f, "%s is rejected but an expression is returned", vc::q(s).c_str()); CHECK(vc::errors_reported > er, "%s is rejected without a report", vc::q(s).c_str()); }
	CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", vc::q(s).c_str(), vc::live(), vc::live_desc().c_str());
	return more;
}
static void done(){ vc::count("accepted", okc); vc::count("rejected", badc); okc = badc = 0; }
static void seqs(const char *name, const std::vector<std::string> &T, int L){
	size_t N = T.size();
	CASE(vc::fmt("%s tokens: none", name), { check(""); check("  \n"); check("# only a comment"); });
	for(size_t a = 0; a < N; a++) for(size_t b = 0; b < N; b++) CASE(vc::fmt("%s tokens: %s %s ...", name, T[a].c_str(), T[b].c_str()), {
		bool m = true; if(b == 0 || !(m = true)) m = check(T[a]); else { std::vector<EX> w; refExpr(T[a], w, &m); }
		if(m){ std::function<void(const std::string &, int)> go = [&](const std::string &s, int n){ if(!check(s) || n == L) return; for(auto &x : T) go(s + " " + x, n + 1); }; go(T[a] + " " + T[b], 2); } done(); });
}
static void chains(){
	std::vector<std::string> op; for(auto &o : EP::ops()) if(o.second.l < 11 && o.second.l != 2) op.push_back(o.first); op.push_back("="); op.push_back("??"); op.push_back("??="); op.push_back("? 7 :"); op.push_back("[[0]] +");
	static const char *PRE[] = {"", "-", "!", "++", "--"};
	for(auto &a : op) for(auto &b : op) CASE("operators " + a + " and " + b + " and any", {
		for(auto &c : op){ for(int v = 0; v < 4; v++){ const char *L[] = {"/a", "/b", "/c", "/d"}; const char *M[] = {"1", "2.5", "x", "f()"}; auto X = [&](int k){ return std::string(v == 0 ? L[k] : v == 1 ? M[k] : v == 2 ? (k % 2 ? M[k] : L[k]) : k == 2 ? "/c[[1]]" : L[k]); };
			check(X(0) + " " + a + " " + X(1) + " " + b + " " + X(2) + " " + c + " " + X(3)); check(X(0) + a + X(1) + b + X(2) + c + X(3)); }
			for(int pos = 0; pos < 4; pos++) for(int p = 1; p < 5; p++){ std::string s; const char *L[] = {"/a", "/b", "/c", "/d"}; const std::string *O[] = {NULL, &a, &b, &c}; for(int k = 0; k < 4; k++){ if(k) s += " " + *O[k] + " "; if(k == pos) s += PRE[p]; s += L[k]; } check(s); }
			check("/a " + a + " (/b " + b + " /c) " + c + " /d"); check("(/a " + a + " /b) " + b + " /c " + c + " /d"); check("/a " + a + " (/b " + b + " /c " + c + " /d)"); check("/a " + a + " /b++ " + b + " /c-- " + c + " sin(/d)"); check("[/a " + a + " 1, /b " + b + " 2, /c " + c + " 3]"); }
		done(); });
}
static void composed(){
	static const char *OP[] = {"/p", "2", "q", "[5, /r]", "sin(/s)", "\"t\"", "/u"}; static const char *AD[] = {"/a", "/b", "/c", "/d"};
	auto lv = [](const std::string &t, size_t from, int rot){ std::vector<std::string> a; for(size_t k = 0; k < holes(t); k++) a.push_back(kind(t, k) == '#' ? AD[(k + from) % 4] : OP[(k + from + rot) % 7]); return a; };
	std::vector<std::string> T = T1; for(const char *x : {"lambda([a], %)", "lambda([a, b], %, %)", "(%, %)", "nosuch(%)", "%, %", "/b./m./n = %", "%./m", "%[[%]]", "{/k : [%, %], /j : {/i : %}}", "f(%)(%)", "#[[%]]./m", "#[[%]]./m = %", "-#++", "# = # = %", "++#[[%]]", "%;"}) T.push_back(x);
	for(auto &t : T) CASE("form " + t, { for(int r = 0; r < 7; r++){ auto a = lv(t, r, 0); std::string s = fill(t, a); check(s); check("(" + s + ")"); check("[" + s + "]"); check("/z = " + s); check("sin(" + s + ")"); check(s + " + 1"); check("1 + " + s); check(s + ", " + s); } done(); });
	for(auto &t : T) for(size_t h = 0; h < holes(t); h++) CASE(vc::fmt("form %s with a form for operand %zu", t.c_str(), h), { auto a = lv(t, 0, 0); for(auto &u : T) for(int r = 0; r < (vc::tier ? 7 : 2); r++){ auto b = lv(u, 3, r); std::string in = fill(u, b); for(int p = 0; p < 2; p++){ std::vector<std::string> c = a; c[h] = p ? "(" + in + ")" : in; check(fill(t, c)); if(!vc::tier && !r && p && holes(t) < 4) for(auto &v : T){ auto d = lv(u, 3, 1); for(size_t g = 0; g < d.size(); g++) if(kind(u, g) != '#'){ d[g] = "(" + fill(v, lv(v, 5, 2)) + ")"; break; } c[h] = "(" + fill(u, d) + ")"; check(fill(t, c)); } } } done(); });
}
static void numbers(){ for(const char *m : {"1", "10", "1.", "1.5", ".5", "0x1", "0x1p3", "0x1.8p-2", "0x.8p1", "1e5", "1E+5", "1.e-5", ".5E3", "0", "007", "2147483648", "0x7fffffff", "0x1."}) CASE(std::string("suffixes of ") + m, { for(const char *x : {"", "f", "F", "l", "L", "u", "U", "ul", "uL", "Ul", "lu", "ll", "LL", "lL", "ull", "ULL", "LLu", "fl", "ff", "d", "e", "p1", "_", "x", ".", "..", "e+", "e+1", "E-0", "p", "P+1"}) for(const char *pf : {"", "-", "--", "+", "1 + ", "1-", "[", "f("}){ std::string s = std::string(pf) + m + x; if(*pf == '[') s += "]"; if(*pf == 'f') s += ")"; check(s); check(s + ", 2"); } done(); }); }
void explore(){
	composed(); numbers();
	seqs("operator", {"/a", "1", "+", "-", "*", "^", "<", "==", "&", "||", "?", ":", "=", "+=", "!", "(", ")", "++", "??", ","}, LT());
	seqs("structure", {"/a", "1", "x", "sin", "list", "(", ")", "[", "]", "[[", "]]", ",", ":", "=", ".", "{", "}", "lambda", "`", "\"s\"", "?", "-"}, LS());
	chains();
	static const char al[] = "/a1 .0x,=+-*?[](){}\"\\'#\n;&|!:<`e"; int N = sizeof al - 1;
	for(const char *pf : {"", "1+", "/a = \"", "/a[["}) for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) CASE("texts " + vc::q(std::string(pf) + al[a] + al[b]) + "...", {
		std::string s = std::string(pf) + al[a]; if(b == 0) check(s); s += al[b]; size_t lim = strlen(pf) + LC(); std::function<void()> r = [&]{ check(s); if(s.size() == lim) return; for(int k = 0; k < N; k++){ s += al[k]; r(); s.pop_back(); } }; r(); done(); });
	static const char na[] = "019.-+exFpT"; int M = sizeof na - 1;
	for(int a = 0; a < M; a++) for(int b = 0; b < M; b++) CASE("literals " + vc::q(std::string(1, na[a]) + na[b]) + "...", { std::string s(1, na[a]); s += na[b]; std::function<void()> r = [&]{ check(s); check("[" + s + "]"); if((int)s.size() == LC() + 2) return; for(int k = 0; k < M; k++){ s += na[k]; r(); s.pop_back(); } }; r(); done(); });
	CASE("words and literals", { for(const char *w : {"true", "True", "TRUE", "tRUE", "truex", "false", "False", "nil", "NIL", "Nil", "niL", "nIL", "False", "FALSE", "fALSE", "TrUe", "lambda", "lambdax", "quote", "quotes", "'a'", "'''", "''", "'", "'\n'", "'ab'", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0xffffffff", "0x100000000", "0xffffffffffffffff", "0x1p3", "0x1.8p-2f", "1e400", "1.5f", "1.5L", "1f", "007", "08.5", "\"\"", "\"a b\"", "\"a\\\"b\"", "\"a\\\\\"", "\"\\\\\\\"\"", "\"a\\nb\"", "\"x\\", "\"x\\\"", "\"\xc3\xa9\"", "\xc3\xa9", "a$b", "a#b", "$1", "@", "~", "_", "/a#b", "/a'b", "/a\"b", "/a/b//c", "//", "/", "/.", "/a.b", "/a./b", "f\r", "\x01", "\x7f", "\xff"}){ std::string x = w; check(x); check("[" + x + "]"); check("/t = " + x); check("[" + x + ", 1]"); check("1 + " + x); check("list(" + x + " )"); check(x + "\n+1"); check("# c\n" + x + " # d"); } done(); });
	CASE("quoted expressions", { for(const char *w : {"quote(", "quote()", "quote(a)", "quote (a)", "quote\n(a)", "quote\r(a)", "quote((a))", "quote((a)", "quote(a))", "quote(a\\)b)", "quote(a\\(b)", "quote(\")\")", "quote(a, b) ", "quote(a) + 1", "1 + quote(x(y)z) * 2", "[quote(a), quote(b)]", "quote(a)(b)", "eval(quote(/a = 3))", "quotex(a)", "xquote(a)", "quote(\n)", "/a = quote(1 + (2)), /b = 3", "quote(a#b\n)"}) check(w); done(); });
	CASE("lambdas", { for(const char *h : {"lambda([a], ", "lambda([a, b], ", "lambda([], ", "lambda(a, ", "lambda(\"q\", ", "lambda([\"a b\"], ", "lambda([a b], ", "lambda([1], ", "lambda(1, ", "lambda(/a, ", "lambda([a,], ", "lambda((a), ", "lambda [a], ", "lambda(", "lambda([a]", "lambda([a, a, a], "})
		for(const char *b : {"a", "a + 1", "a, b", "a + 1, b", "a, b + 1, 3", "1, 2, 3", "/x = a, /y", "lambda([c], a + c)", "sin(a), lambda(c, c), \"s\"", "", "a,", "[a, b]", "{/x : a}"}) for(const char *t : {")", ""}) for(const char *w : {"%", "map(%, /l)", "apply(%, 1, 2)", "(%, 1)", "(%)", "(%,)", "lreduce(%, [1, 2, 3], 0)", "% + 1", "/f = %", "[%, %]", "%, %", "/a, %", "(%, 1) + (%, 2)"}){ std::string s; for(const char *c = w; *c; c++) if(*c == '%') s += std::string(h) + b + t; else s += *c; check(s); } done(); });
	std::vector<const char *> names{"nosuch", "SIN", "lambdas", "si", "sinn"}; for(auto &a : ARITY) names.push_back(a.n); for(const char *fn : names) CASE(std::string("arguments of ") + fn, { for(int n = 0; n < 8; n++) for(const char *pf : {"", "/x = ", "[1, 2] + ", "f(1), "}){ std::string s = std::string(pf) + "\x01" + "("; s.replace(s.find('\x01'), 1, fn); for(int k = 0; k < n; k++) s += vc::fmt("%s%s", k ? ", " : "", k % 3 == 0 ? "/a" : k % 3 == 1 ? "2" : "(1 + 2)"); check(s + ")"); check(s + ",)"); check(s); } done(); });
	CASE("lists of expressions", { const char *E[] = {"/a", "1", "/a = 1", "sin(2)", "[1]", "x", "\"s\"", "(1 + 2)", "", "lambda(a, a)", "{/x : 1}"}; for(auto *a : E) for(auto *b : E) for(auto *c : E) for(auto *d : E){ check(vc::fmt("%s,%s, %s ,%s", a, b, c, d)); } done(); });
	CASE("semicolons", { for(const char *a : {";", ";;", "; ;", ";\n;", "; ; ;;", " ; ", ";\t;  ", "; # c\n ;", ",;", ";,", "; ,;"}) for(const char *f : {"%s", "1%s", "%s1", "1%s2", "/a = 1%s/b = 2%s", "1%s2%s3", "[1%s2]", "sin(1%s)", "{/a : 1%s}", "lambda([a], a%sa)"}){ std::string s; for(const char *q = f; *q; q++) if(q[0] == '%' && q[1] == 's'){ s += a; q++; } else s += *q; check(s); } done(); });
	// every construct at every size
	for(int kind = 0; kind < 30; kind++) CASE(vc::fmt("construct %d of every size", kind), { for(int n = 1; n <= (vc::tier ? 700 : 300); n++){ if(!vc::look(n)) continue; std::string s; auto rp = [&](const char *f){ std::string r; for(int k = 0; k < n; k++) r += f; return r; }; auto num = [&](const char *f, const char *sep){ std::string r; for(int k = 0; k < n; k++) r += (k ? sep : "") + vc::fmt(f, k, k); return r; };
		switch(kind){
		case 0: s = "/" + std::string(n, 'a') + " = 1"; break; case 1: s = rp("/ab") + " + 1"; break; case 2: s = std::string(n, 'x') + " + 1"; break; case 3: s = "lambda([" + std::string(n, 'p') + "], " + std::string(n, 'p') + " + 1)"; break; case 4: s = "lambda([" + num("p%d", ", ") + "], p0 + p1)"; break; case 5: s = "\"" + std::string(n, 's') + "\""; break; case 6: s = "\"" + rp("\\\"") + "\""; break;
		case 7: s = "/a" + std::string(n, ' ') + "=" + std::string(n, '\n') + "1" + std::string(n, '\t'); break; case 8: s = "/a = 1 # " + std::string(n, 'c') + "\n, /b = 2"; break; case 9: s = "1." + std::string(n, '0') + "1"; break; case 10: if(n > 300) continue; s = "[" + std::string(n, '0') + "7]"; break; case 11: s = "[" + num("%d", ", ") + "]"; break; case 12: s = "list(" + num("/m%d", ", ") + ")"; break; case 13: s = "{" + num("/m%d : %d", ", ") + "}"; break;
		case 14: s = num("/m%d = %d", ", "); break; case 15: s = num("/m%d = %d", ";") + ";"; break; case 16: s = num("%d", " + "); break; case 17: s = num("/m%d", " * 2 - "); break; case 18: s = num("/m%d", " = ") + " = 1"; break; case 19: s = num("/m%d", " ^ "); break; case 20: s = num("/m%d ? %d", " : ") + " : 0"; break; case 21: if(n > 300) continue; s = rp("(") + "1 + 2" + rp(")"); break;
		case 22: if(n > 200) continue; s = rp("sin(") + "1" + rp(")"); break; case 23: if(n > 200) continue; s = rp("[[") ; s = "/a" + rp("[[/a") + "[[1]]" + rp("]]"); break; case 24: if(n > 200) continue; s = rp("[") + "1" + rp("]"); break; case 25: if(n > 200) continue; s = rp("lambda([a], ") + "a" + rp(")"); break; case 26: s = rp("!") + "/a"; break; case 27: s = rp("- ") + "1 + /a"; break; case 28: if(n > 200) continue; s = rp("{/k : ") + "1" + rp("}"); break; case 29: s = "/a" + rp("./m"); break; }
		check(s); if(n % 3 == 0){ check(s + ", 2"); check("/z = " + s); s.pop_back(); check(s); check(s + "]"); check(s + " + "); check(s + ")"); } } done(); });
	CASE("long texts", { for(int n : {10, 200, 1500}){ std::string s = "/a = 1", l = "[1", p, q, m = "1"; for(int k = 0; k < n; k++){ s += vc::fmt(", /m%d = %d", k, k); l += vc::fmt(", %d", k); if(k < 90){ p += "("; q += ")"; } m += " + 1"; } check(s); check(s + ","); check(l + "]"); check(l); check(p + "1 + 1" + q); check(p + "1 + 1" + q + ")"); check(m); check(m + " +"); check("/a = \"" + std::string(n, 'x') + "\""); check("/a = %s%n" + std::string(n, '%')); check("/" + std::string(n, 'q') + " = 1 1"); } done(); });
	CASE("the other entry point", { for(const char *w : {"/a = 1, /b = 2", "1 +", "f(", "/a = lambda([a], a)"}){ Buf t(std::string(w) + std::string(1, 0)); std::vector<EX> r; bool ok = refExpr(w, r); t_osc_expr *f = osc_expr_parser_parseExpr_r(t.p, NULL); CHECK(!!f == ok, "%s", w); if(f){ CHECK(str(rdXs(f)) == str(r), "%s parses as %s", w, str(rdXs(f)).c_str()); osc_expr_free(f); } CHECK(vc::live() == 0, "%s: %ld blocks remain", w, vc::live()); } });
}
