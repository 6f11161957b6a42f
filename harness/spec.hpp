// Reference interpreter of whole statements: special functions, parameters and the bundle they read and update
#pragma once
#include "eval.hpp"
#include "match.hpp"
typedef std::map<std::string, L> Env;
struct Run {
	Bndl &b; Run(Bndl &x) : b(x) {}
	static std::vector<std::shared_ptr<EL>> &fns(){ static std::vector<std::shared_ptr<EL>> v; return v; }
	static Val rec(std::shared_ptr<EL> l){ if(fns().size() > 100000) fns().clear(); Val v; v.t = 'r'; v.i = fns().size(); fns().push_back(l); return v; }
	static bool full(const std::string &p, const std::string &a){ if(p.empty() || a.empty() || p[0] != '/') return false; return refMatch(p, a).r == 3; }
	static L read(const Bndl &b, const std::string &a){ for(auto &m : b.m) if(full(a, m.a)) return m.v; throw EErr{true}; }
	static bool goodAddr(const std::string &a){ return a.size() > 1 && a[0] == '/' && a.find_first_of("# ") == std::string::npos; }
	static Val flat(const Val &v){ if(v.t != '.') return v; Bndl n = *v.b; n.tt = 0; for(auto &m : n.m) for(auto &x : m.v) x = flat(x); return vb(n); }   // a bundle in memory has no time tag
	static void put(Bndl &b, const std::string &a, L v){ if(!goodAddr(a)) throw EErr(); for(auto &x : v){ if(x.t == 'r') throw EErr(); if(x.t == '*') throw Skip(); } for(auto &m : b.m) if(m.a == a){ m.v = v; return; } b.m.push_back(Msg{a, v}); }
	static void noNull(const L &l){ if(l.empty()) throw Skip(); }
	L arg(const EA &a, const Env *env){
		switch(a.k){
		case 'v': if(env && a.v.t == 's'){ auto k = env->find(a.v.s); if(k != env->end()) return k->second; } return {a.v};
		case 'q': return {a.v};
		case 'a': { L r = read(b, a.a); for(auto &v : r) v = flat(v); return r; }
		case 'e': return eval(*a.e, env);
		case 'l': return {rec(a.l)};
		}
		throw Skip();
	}
	L callFn(std::shared_ptr<EL> l, const std::vector<EA> &a, const Env *env){
		if(a.size() < l->params.size()) throw EErr();
		Env e; if(env) e = *env; std::vector<L> v; for(size_t k = 0; k < l->params.size(); k++) v.push_back(arg(a[k], env)); for(size_t k = 0; k < v.size(); k++) e[l->params[k]] = v[k];
		L r; for(auto &x : l->body) r = eval(x, &e); return r;
	}
	L apply(const EA &f, const std::vector<EA> &rest, const Env *env){
		if(f.k == 'l') return callFn(f.l, rest, env);
		std::string name;
		if(f.k == 'v'){ if(f.v.t != 's') throw EErr(); name = f.v.s; }
		else { L l = arg(f, env); if(l.size() != 1 || l[0].t != 's') throw EErr(); name = l[0].s; }
		for(auto &x : ARITY) if(name == x.n){ int n = rest.size(); if(n < x.r || (x.o >= 0 && n > x.r + x.o)) throw EErr(); return eval(EX{name, rest}, env); }
		if(f.k == 'v'){ auto k = env ? env->find(name) : Env::const_iterator(); if(env && k != env->end() && k->second.size() && k->second[0].t == 'r') return callFn(fns()[k->second[0].i], rest, env); throw EErr(); }
		// the text of a function
		auto t = elex(name); EP p(t); if(t.empty() || t[0].k != "LAMBDA") throw EErr(); EA g; try{ g = p.lambda(); }catch(EP::Bad &){ throw EErr(); } if(p.i < t.size()) throw Skip(); return callFn(g.l, rest, env);
	}
	static EA data(const Val &v){ EA a; a.k = 'q'; a.v = v; return a; }
	std::string target(const EA &t, const Env *env){
		if(t.k == 'a') return t.a;
		L l; bool got = false;
		if(t.k == 'e' && canon(t.e->fn) == "value" && t.e->args.size() && t.e->args[0].k == 'a'){ try{ l = arg(t.e->args[0], env); got = true; }catch(EErr &){} }
		if(!got) l = arg(t, env);
		if(l.empty() || l[0].t != 's') throw EErr(); return l[0].s;
	}
	L assign(const EX &x, const Env *env){ std::string a = target(x.args[0], env); if(!goodAddr(a)) throw EErr(); L v = arg(x.args[1], env); put(b, a, v); return v; }
	L putIndex(const EA &t, const L &ix, const L &v){
		if(t.k != 'a') throw EErr(); L cur = arg(t, NULL); size_t n = v.size() == 1 ? ix.size() : std::min(ix.size(), v.size()); if(!n) throw EErr();
		for(size_t k = 0; k < n; k++){ const Val &i = ix[k]; if(!isnum(i.t)) throw Skip(); int32_t p = toI<int32_t>(i); if(p < 0 || p >= (long)cur.size()){ if(ix.size() == 1) throw EErr(); continue; } const Val &d = v[v.size() == 1 ? 0 : k]; if(d.t == 'r') throw EErr(); if(d.t == '*') throw Skip(); cur[p] = d; }
		for(auto &m : b.m) if(full(t.a, m.a)){ m.v = cur; break; }
		return cur;
	}
	Bndl nested(const L &l){ L c = l; if(c.size() && c[0].t == 's'){ c = read(b, c[0].s); } if(c.empty() || c[0].t != '.') throw EErr(); return *flat(c[0]).b; }
	std::string member(const EA &m, const Env *env){ if(m.k == 'a') return m.a; const EA *s = &m; if(m.k == 'e' && m.e->fn == "value") s = &m.e->args[0]; L l = arg(*s, env); if(l.empty() || l[0].t != 's') throw EErr(); return l[0].s; }
	bool truth(const L &l){ if(l.empty()) throw EErr(); const Val &v = l[0]; if(v.t == 's') return toI<int32_t>(v) != 0; if(v.t == 'r' || v.t == 't') throw Skip(); return toB(v); }
	L eval(const EX &x, const Env *env){
		const std::string f = canon(x.fn); const auto &a = x.args; size_t n = a.size();
		if(f == "apply") return apply(a[0], std::vector<EA>(a.begin() + 1, a.end()), env);
		if(f == "map"){ std::vector<L> ls; size_t m = 0; for(size_t k = 1; k < n; k++){ ls.push_back(arg(a[k], env)); m = k == 1 ? ls[0].size() : std::min(m, ls.back().size()); } L r; for(size_t i = 0; i < m; i++){ std::vector<EA> d; for(auto &l : ls) d.push_back(data(l[i])); L o = apply(a[0], d, env); r.insert(r.end(), o.begin(), o.end()); } return r; }
		if(f == "lreduce" || f == "rreduce"){ bool left = f == "lreduce"; L l = arg(a[1], env), acc; size_t i = 0; if(n > 2){ acc = arg(a[2], env); if(acc.empty()) throw EErr(); } else { if(l.empty()) return {}; acc = {left ? l[0] : l.back()}; i = 1; }
			for(; i < l.size(); i++){ if(acc.empty()) throw EErr(); EA p = data(acc[0]), q = data(l[left ? i : l.size() - 1 - i]); acc = apply(a[0], left ? std::vector<EA>{p, q} : std::vector<EA>{q, p}, env); } return acc; }
		if(f == "=") return assign(x, env);
		if(f == "assign_to_index"){ if(a[0].k != 'a') throw EErr(); L ix = arg(a[1], env), v = arg(a[2], env); return putIndex(a[0], ix, v); }
		if(f == "if"){ if(truth(arg(a[0], env))) return arg(a[1], env); return n > 2 ? arg(a[2], env) : L{}; }
		if(f == "&&" || f == "||"){ L l = arg(a[0], env); noNull(l); if(!isBool(l[0].t)) throw EErr(); if((l[0].t == 'T') == (f == "||")) return {l[0]}; l = arg(a[1], env); noNull(l); if(!isBool(l[0].t)) throw EErr(); return {l[0]}; }
		if(f == "emptybundle"){ if(!n) return {vbool(b.m.empty())}; L l = arg(a[0], env); return {vbool(!(l.size() && l[0].t == '.' && l[0].b->m.size()))}; }
		if(f == "bound" || f == "exists"){ std::string s;
			if(a[0].k == 'a') s = a[0].a; else if(a[0].k == 'v'){ if(a[0].v.t != 's') throw EErr(); L l = arg(a[0], env); if(l.empty() || l[0].t != 's') throw EErr(); s = l[0].s; }
			else if(a[0].k == 'e' && canon(a[0].e->fn) == "."){ try{ L l = arg(a[0], env); return {vbool(f == "exists" || l.size())}; }catch(EErr &){ return {vt('F')}; } }
			else { L l = arg(a[0], env); if(l.size() != 1 || l[0].t != 's' || l[0].s.empty() || l[0].s[0] != '/') throw EErr(); s = l[0].s; }
			bool r = false; for(auto &m : b.m) if(full(s, m.a) && (f == "exists" || m.v.size())) r = true; return {vbool(r)}; }
		if(f == "getaddresses"){ L r; if(!n){ for(auto &m : b.m) r.push_back(vs(m.a)); return r; } L l = arg(a[0], env); noNull(l); if(l[0].t != '.') throw EErr(); for(auto &m : l[0].b->m) r.push_back(vs(m.a)); return r; }
		if(f == "delete"){ for(auto &t : a){ std::string s; if(t.k == 'a') s = t.a; else if(t.k == 'v'){ L l = arg(t, env); if(l.size() && l[0].t == 's') s = l[0].s; else continue; } else if(t.k == 'e') throw Skip(); else continue; std::vector<Msg> k; for(auto &m : b.m) if(!full(s, m.a)) k.push_back(m); b.m = k; } return {}; }
		if(f == "getmsgcount") return {vi('i', b.m.size())};
		if(f == "value"){ L l = arg(a[0], env); if(l.empty() || l[0].t != 's') return {}; for(auto &m : b.m) if(full(l[0].s, m.a)){ L r = m.v; for(auto &v : r) v = flat(v); return r; } return {}; }
		if(f == "quote") return {a[0].v};
		if(f == "eval"){ L l = arg(a[0], env); if(l.size() != 1 || l[0].t != 's') throw Skip(); std::vector<EX> p; if(!refExpr(l[0].s, p)) return {any("i")}; for(auto &e : p){ try{ eval(e, NULL); }catch(EErr &){ return {any("i")}; } } return {vi('i', 0)}; }
		if(f == "tokenize"){ L l = arg(a[0], env); if(l.size() != 1 || l[0].t != 's') throw Skip(); L r; for(auto &t : elex(l[0].s)){ if(t.k == "BAD") throw Skip(); r.push_back(t.k == "NUM" || t.k == "STR" || t.k == "QUOTE" || t.k == "ADDR" ? t.v : vs(t.k == "LAMBDA" ? "lambda" : t.k)); } return r; }
		if(f == "gettimetag") return {vi('t', b.tt)};
		if(f == "settimetag"){ L l = arg(a[0], env); if(l.empty()) throw EErr(); if(l[0].t != 't') throw Skip(); b.tt = l[0].i; return {}; }
		if(f == "." || f == "getbundlemember"){ L l = arg(a[0], env); Bndl s = nested(l); std::string m = member(a[1], env); return read(s, m); }
		if(f == "assigntobundlemember"){
			L v = arg(a[2], env); std::string m = member(a[1], env); L l; Bndl s;
			try{ l = arg(a[0], env); }catch(EErr &e){ if(!e.unbound || a[0].k != 'a') throw; l = {vb(Bndl())}; }
			s = nested(l); put(s, m, v); Val nv = vb(s);
			if(a[0].k == 'e' && canon(a[0].e->fn) == "nth"){ if(a[0].e->args[0].k != 'a') throw EErr(); return putIndex(a[0].e->args[0], arg(a[0].e->args[1], env), {flat(nv)}); }
			if(l[0].t == 's'){ put(b, l[0].s, {nv}); return {nv}; }
			if(a[0].k != 'a') throw EErr();
			l[0] = nv; put(b, a[0].a, l); return l; }
		if(f == "bundle"){ Bndl s; if(n == 1) throw Skip(); for(size_t k = 0; k < n; k += 2){ L ad = arg(a[k], env), v; if(k + 1 < n) v = arg(a[k + 1], env); if(ad.empty() || ad[0].t != 's' || !goodAddr(ad[0].s)) throw EErr(); for(auto &x : v) if(x.t == 'r' || x.t == '*') throw Skip(); s.m.push_back(Msg{ad[0].s, v}); } return {vb(s)}; }
		std::vector<L> v; for(auto &y : a){ v.push_back(arg(y, env)); for(auto &z : v.back()) if(z.t == 'r') throw Skip(); }
		L r; if(callOp(f, v, r) || callList(f, v, r)) return r;
		throw Skip();
	}
};
