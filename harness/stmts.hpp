// Statements and start bundles shared by the checks of whole statements
#pragma once
#include "spec.hpp"
struct Theme { const char *name; std::vector<std::string> st; };
static const std::vector<Theme> &themes(){ static const std::vector<Theme> t = [] { std::vector<Theme> t{
	{"assignment", {"/x = 1", "/y = /x", "/x = [1, 2.5, 3]", "/x += 1", "/x -= /y", "/x *= 2", "/y /= 2", "/x ^= 2", "/x %= 3", "/x++", "++/x", "--/y", "/y--", "/x ??= 7", "/z = /x ?? 9", "/x = []", "/x = [/x, \"s\"]", "/xy = 1", "/x/y = \"t\"", "/y = /x = 3", "/z = (/x = /x + 1) + /x", "assign(\"/x\", [6, 7])", "/p = \"/x\"", "assign(value(/p), 5)", "value(/p)", "value(\"/x\")", "assign(value(\"/p\"), 8)", "delete(/x)", "delete(/x, \"/y\", /nope)", "/y = getaddresses()", "/z = getmsgcount()", "/x", "/x + /y", "bound(/x)", "exists(/x)", "exists(/p)", "bound(value(\"/p\"))", "emptybundle()", "settimetag(/t + 1)", "/t = gettimetag()", "settimetag(/t)", "/x = /nope", "/nope = lambda([a], a)", "/y = sum(/x)", "/y = nil", "/x = true", "assign(7, 1)", "assign(\"x\", 1)", "/z = tokenize(\"/x += 2.5 == foo(lambda)\")"}},
	{"index", {"/x = [1, 2, 3]", "/x[[0]] = 10", "/x[[1]] = /y", "/x[[0:1]] = 4", "/x[[0:2:2]] = [5, 6]", "/x[[2, 0]] = [8, 9]", "/x[[2, 0, 1]] = [7, 7.5]", "/x[[5]] = 1", "/x[[-1]] = 1", "/x[[0, 5]] = 2", "/x[[0]] = /x[[1]] = 5", "/x[[0]] = (/x = [20, 21])", "/x[[/y]] = \"a\"", "/x[[0]] = (/y = 1)", "/x[[(/y = 2)]] = /y", "/x[[0]] = []", "/x[[0]] = /nope", "/nope[[0]] = 1", "/x[[/nope]] = 1", "/x[[0]] = lambda([a], a)", "/y = /x[[1]]", "/y = /x[[2, 0]]", "/x = reverse(/x)", "/y = 1", "/y = 0", "/x[[0]] += 1", "/x[[1]] = [3, 4]", "/x[[0]] = delete(/x)", "/x[[0]] = nil", "delete(/x)", "assign_to_index(\"/x\", 0, 1)", "/w = /x", "/x[[0]] = /x[[0]] + /x[[1]]"}},
	{"nested", {"/b./m = 1", "/b./m = /b./m + 1", "/b./n = [1, 2]", "/b./m = /b./n = 3", "/b = {/m : 1, /n : \"q\"}", "/b = {}", "/x = /b./m", "/b./c = /b", "/q = /b", "/s = \"/b\"", "/s./m = 9", "/y = /s./m", "assigntobundlemember(\"/b\", /m, 4)", "assigntobundlemember(/b, \"/k\", 6)", "getbundlemember(\"/b\", \"/m\")", "getbundlemember(/b, value(/k))", "/k = \"/m\"", "/l = [{/m : 1}, {/m : 2}, 3]", "assigntobundlemember(/l[[1]], /m, 5)", "getbundlemember(/l[[0]], /m)", "exists(/b./m)", "bound(/b./z)", "exists(/b./z)", "getaddresses(/b)", "getaddresses(/x)", "emptybundle(/b)", "emptybundle(/nope)", "delete(/b)", "/b./m = /nope", "/nope./m = /nope2", "/x./m = 1", "/b./m = delete(/x)", "/b./e = []", "/b./m", "\"/b\"./m", "getbundlemember(/b./c, /m)", "/x = 1", "/b./f = lambda([a], a)", "/b./m = (/x = 2)", "/b./m = (/b = {/n : 1})", "assigntobundlemember(/l, /m, 7)", "assigntobundlemember(/l[[2]], /m, 5)", "assigntobundlemember(identity(/b), /m, 5)", "/b = [/b, 5]", "assigntobundlemember(/b, 5, 5)"}},
	{"control", {"/c = true", "/c = false", "/c = 0.5", "/c = [false, true]", "/c = []", "/c = \"1\"", "/c = 4294967296", "/c = nil", "/x = if(/c, 1, 2)", "/c ? (/x = 1) : (/y = 1)", "/c && (/x = true)", "/c || (/y = true)", "/c = !/c", "if(/x > 0, /x = /x - 1, /x = 3)", "if(/c, /y = 5)", "if(/nope, /y = 6, /y = 7)", "if(/c, /nope, /y = 8)", "eval(\"/x = 5, /y = 6\")", "eval(\"/x = /nope, /y = 1\")", "eval(\"/x = 1, /y = /nope, /c = 1\")", "eval(\"/x =\")", "/e = \"/x = /x + 2\"", "eval(/e)", "eval(quote(/y = (3 + 1)))", "eval(delete(/y))", "eval(/nope)", "/q = quote(/x + 1)", "progn(/x = 1, /y = /x)", "prog1(/x, /x = 8)", "/c = /x == 1", "/x = 1", "/y = /c ? /x : /y", "true && false || true", "/c ?? /x", "bound(/y) && /y > 4", "exists(/x) || /nope", "delete(/c)", "delete(/y)", "/c && 5", "/x = [/y ?? 0, /x ?? 0]", "tokenize(quote(/a[[1]] = -3 ?? nil))"}},
	{"functions", {"/x = (lambda([a], a + 1), /x)", "(lambda([a, b], /y = a, a * b), 2, /x)", "(lambda([a], /x = a), 4)", "map(lambda([a], a * a), /l)", "/x = map(lambda([a, b], a + b), /l, [10, 20])", "map(lambda([a], /x = a), /l)", "map(\"length\", /l)", "map(\"+\", /l, /l)", "map(/g, /l)", "map(lambda([a], [a, a]), /l)", "map(lambda([a], delete(/y)), /l)", "map(lambda([a], a + /nope), /l)", "map(lambda([a, b], a), /l)", "map(\"nosuch\", /l)", "/x = lreduce(lambda([a, b], a - b), /l)", "/x = rreduce(lambda([a, b], a - b), /l)", "lreduce(\"+\", /l, 100)", "rreduce(\"-\", /l, 100)", "lreduce(lambda([a, b], [a, b]), /l)", "lreduce(lambda([a, b], /x = a, a + b), /l, /x)", "lreduce(\"-\", /l, [])", "lreduce(lambda([a, b], delete(/y)), /l)", "lreduce(\"+\", /nope)", "rreduce(\"-\", /l, /nope)", "/l = [1, 2, 3]", "/l = []", "/l = [\"a\", \"b\"]", "/l = 5", "/f = \"lambda([a], a + 1)\"", "/x = /f(3)", "/g = \"abs\"", "/g(-3)", "apply(\"clip\", /x)", "apply(\"abs\", /x)", "apply(\"if\", /x, 1, (/y = 2))", "apply(\"assign\", /y, 3)", "apply(\"assign\", /y)", "apply(\"/y\", 1)", "apply(/nope, 1)", "apply(/x, 1)", "apply(5, 1)", "(lambda([a], map(lambda([b], a + b), /l)), 10)", "(lambda([a], (lambda([a], a * 2), a + 1)), 5)", "(lambda([f, a], apply(f, apply(f, a))), lambda([b], b + 3), 1)", "(lambda([a], map(lambda([b], b), [\"a\", \"b\"])), 1)", "(lambda([a], map(lambda([b], b), /l)), 1)", "(lambda([a], lreduce(lambda([b, c], c), /l)), 1)", "(lambda([a], a), /nope)", "(lambda([a], a, /nope), 1)", "(lambda([a, b], a), 1)", "(lambda([a], delete(a)), \"/x\")", "(lambda([a], assign(a, 5)), \"/x\")", "(lambda([a], exists(a)), \"/y\")", "(lambda([a], value(a)), \"/y\")", "progn(\"a\")", "/x = apply(lambda([a], 5), 1)", "(lambda([a], /b./m = a), 3)", "(lambda([a], /b./m = \"a\"), /l)", "(lambda([a], a + (/y = a + 1) + a), 3)", "/g = (lambda([a], quote(a)), 1)", "delete(/x)"}}};
	Theme m{"mixed", {}}; for(auto &x : t) for(size_t k = &x - &t[0]; k < x.st.size(); k += 4) m.st.push_back(x.st[k]); t.push_back(m); return t; }();
	return t; }
static std::vector<Bndl> starts(){
	std::vector<Bndl> r{Bndl{}, Bndl{7, {Msg{"/x", {vi('i', 3)}}, Msg{"/y", {vd('d', 2.5)}}, Msg{"/l", {vi('i', 1), vi('h', 2), vi('i', 3)}}, Msg{"/c", {vt('T')}}, Msg{"/b", {vb(Bndl{0, {Msg{"/m", {vi('i', 1)}}, Msg{"/n", {vs("q"), vi('i', 2)}}}})}}}},
		Bndl{(uint64_t)5 << 32, {Msg{"/xy", {vs("k")}}, Msg{"/x", {vi('i', 1), vi('i', 2), vi('i', 3)}}, Msg{"/x", {vs("second")}}, Msg{"/p", {vs("/x")}}, Msg{"/y", {}}, Msg{"/x/y", {vblob("abc")}}, Msg{"/l", {vs("a"), vs("b"), vs("c")}}, Msg{"/s", {vs("/b")}}, Msg{"/b", {vb(Bndl{}), vi('i', 9)}}, Msg{"/f", {vs("lambda([a], [a, a])")}}, Msg{"/g", {vs("length")}}, Msg{"/k", {vs("/m")}}}}};
	if(vc::tier){ r.push_back(Bndl{1, {Msg{"/x", {vt('T'), vt('N'), vd('f', .5)}}, Msg{"/b", {vs("/q")}}, Msg{"/q", {vb(Bndl{0, {Msg{"/m", {vi('c', 7)}}}})}}, Msg{"/l", {vi('i', 1), vs("x")}}, Msg{"/c", {vi('h', 1ll << 32)}}, Msg{"/e", {vs("/x = 5, /c = 0")}}}}); }
	return r;
}
