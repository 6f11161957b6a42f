// Forms of statements, to be composed of one another
#pragma once
#include <functional>
#include <string>
#include <vector>
// statements composed of one another: % any expression, # an address, ~ an expression in the scope of the parameter a
static const std::vector<std::string> T1{"% + %", "% - %", "% == %", "% < %", "% && %", "% || %", "!%", "# = %", "# += %", "# ??= %", "#[[%]] = %", "#[[%]]", "#[[%:%]]", "#[[%:%:%]]", "#[[%:%]] = %", "#[[%:%:%]] = %", "#[[%]] += %", "[%:%]", "[%:%:%]", "#++", "--#", "-%", "# /= %", "% * %", "% ^ %", "% >= %", "% | %", "% & %", "#(%)", "++#", "# ?? %", "% ? % : %", "if(%, %)", "[%, %]", "[%]", "sum(%)", "nth(%, %)", "reverse(%)", "map(lambda([a], ~), %)", "map(\"-\", %, %)", "(lambda([a], ~), %)", "(lambda([a], #./m = a, ~), %)", "apply(\"-\", %, %)", "lreduce(lambda([a, b], a - b * 3), %)", "rreduce(lambda([a, b], a * 5 - b), %, %)", "rreduce(\"-\", %)", "progn(%, %)", "prog1(%, %)", "prog2(%, %)", "delete(#)", "exists(#)", "bound(#)", "value(%)", "assign(%, %)", "/b./m = %", "#./m = %", "getbundlemember(%, /m)", "assigntobundlemember(#, \"/m\", %)", "{/k : %}", "{/k : %, /j : %}", "emptybundle(%)", "getaddresses(%)", "interleave(%, %)", "length(%)", "eval(%)", "quote(%)"};
static size_t holes(const std::string &t){ size_t n = 0; for(char c : t) n += c == '%' || c == '#' || c == '~'; return n; }
static std::string fill(const std::string &t, const std::vector<std::string> &a){ std::string r; size_t k = 0; for(char c : t) if(c == '%' || c == '#' || c == '~') r += a[k++]; else r += c; return r; }
static char kind(const std::string &t, size_t h){ for(char c : t) if(c == '%' || c == '#' || c == '~'){ if(!h--) return c; } abort(); }
static void fills(const std::string &t, const std::vector<std::string> &any, const std::vector<std::string> &addr, const std::vector<std::string> &scope, const std::function<void(const std::string &)> &f){ size_t n = holes(t); std::vector<std::string> a(n); std::function<void(size_t)> go = [&](size_t k){ if(k == n){ f(fill(t, a)); return; } char c = kind(t, k); for(auto &x : c == '%' ? any : c == '#' ? addr : scope){ a[k] = x; go(k + 1); } }; go(0); }
