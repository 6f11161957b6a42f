// Reference matcher for the OSC address pattern language: set of reachable positions, part by part.
#pragma once
extern "C" int osc_match(const char *pattern, const char *address, int *pattern_offset, int *address_offset);   // osc_match.h is not valid C++
enum { OSC_MATCH_ERROR_PATTERN_NO_LEADING_SLASH = 0x500, OSC_MATCH_ERROR_ADDRESS_NO_LEADING_SLASH = 0x600, OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED = 0x800 };
#include <string>
#include <vector>
#include <set>
struct PItem { char k; unsigned char c = 0; bool neg = false; std::vector<std::pair<unsigned char, unsigned char>> r; std::vector<std::string> alt; };
struct PPart { bool bad = false; bool lenient = false; std::vector<PItem> it; };
// one address part's worth of pattern
static inline PPart parsePart(const std::string &p){
	PPart o; size_t i = 0;
	while(i < p.size()){
		PItem t; char c = p[i];
		if(c == '?'){ t.k = '?'; i++; }
		else if(c == '*'){ t.k = '*'; i++; }
		else if(c == '['){
			t.k = '['; size_t j = i + 1; if(j < p.size() && p[j] == '!'){ t.neg = true; j++; }
			bool first = true, closed = false;
			while(j < p.size()){
				if(p[j] == ']' && !first){ closed = true; break; }
				first = false; unsigned char lo = p[j];
				if(j + 2 < p.size() && p[j + 1] == '-' && p[j + 2] != ']'){ unsigned char hi = p[j + 2]; if(hi < lo) std::swap(lo, hi); t.r.push_back({lo, hi}); j += 3; }
				else { t.r.push_back({lo, lo}); j++; }
			}
			if(!closed){ o.bad = true; return o; }
			i = j + 1;
		}
		else if(c == '{'){
			t.k = '{'; size_t j = p.find('}', i); if(j == std::string::npos){ o.bad = true; return o; }
			std::string in = p.substr(i + 1, j - i - 1); size_t s = 0; while(1){ size_t e = in.find(',', s); t.alt.push_back(in.substr(s, e == std::string::npos ? e : e - s)); if(e == std::string::npos) break; s = e + 1; }
			i = j + 1;
		}
		else if(c == ']' || c == '}'){ o.bad = true; return o; }
		else { t.k = 'c'; t.c = c; i++; }
		o.it.push_back(t);
	}
	return o;
}
static inline bool matchPart(const PPart &p, const std::string &a){
	if(a.size() > 62){      // long parts: the same over a vector of reachable positions
		std::vector<char> cur(a.size() + 1, 0); cur[0] = 1;
		for(auto &t : p.it){
			std::vector<char> nx(a.size() + 1, 0);
			for(size_t s = 0; s <= a.size(); s++) if(cur[s]) switch(t.k){
			case 'c': if(s < a.size() && (unsigned char)a[s] == t.c) nx[s + 1] = 1; break;
			case '?': if(s < a.size()) nx[s + 1] = 1; break;
			case '*': for(size_t e = s; e <= a.size(); e++) nx[e] = 1; s = a.size(); break;
			case '[': if(s < a.size()){ bool in = false; for(auto &r : t.r) in |= r.first <= (unsigned char)a[s] && (unsigned char)a[s] <= r.second; if(in != t.neg) nx[s + 1] = 1; } break;
			case '{': for(auto &w : t.alt) if(a.compare(s, w.size(), w) == 0) nx[s + w.size()] = 1; break;
			}
			cur = nx;
		}
		return cur[a.size()];
	}
	uint64_t cur = 1, all = (2ull << a.size()) - 1;
	for(auto &t : p.it){
		uint64_t nx = 0;
		switch(t.k){
		case 'c': for(size_t s = 0; s < a.size(); s++) if(cur >> s & 1 && (unsigned char)a[s] == t.c) nx |= 2ull << s; break;
		case '?': nx = (cur << 1) & all; break;
		case '*': nx = all & ~((cur & -cur) - 1); break;
		case '[': for(size_t s = 0; s < a.size(); s++) if(cur >> s & 1){ bool in = false; for(auto &r : t.r) in |= r.first <= (unsigned char)a[s] && (unsigned char)a[s] <= r.second; if(in != t.neg) nx |= 2ull << s; } break;
		case '{': for(size_t s = 0; s <= a.size(); s++) if(cur >> s & 1) for(auto &w : t.alt) if(a.compare(s, w.size(), w) == 0) nx |= 1ull << (s + w.size()); break;
		}
		if(!(cur = nx)) return false;
	}
	return cur >> a.size() & 1;
}
static inline std::vector<std::string> parts(const std::string &s){ std::vector<std::string> v; size_t i = 1; while(1){ size_t e = s.find('/', i); v.push_back(s.substr(i, e == std::string::npos ? e : e - i)); if(e == std::string::npos) return v; i = e + 1; } }
struct MRes { int r = 0; int po = 0, ao = 0; bool mayerr = false; bool either = false; };   // mayerr: no match or an error; either: r, no match or an error
struct Pat { std::vector<PPart> p; std::vector<int> end; };
static inline Pat parsePat(const std::string &s){ Pat o; int off = 0; for(auto &x : parts(s)){ o.p.push_back(parsePart(x)); off += 1 + x.size(); o.end.push_back(off); } return o; }
static inline MRes refMatch(const Pat &p, const std::vector<std::string> &a){
	MRes m; int ao = 0;
	for(size_t i = 0;; i++){
		const PPart &pp = p.p[i]; const std::string &x = a[i]; ao += 1 + x.size();
		if(x != "*"){
			if(pp.bad){ m.mayerr = true; return m; }
			if(pp.lenient) m.either = true;
			if(!matchPart(pp, x)) return m;
		}
		m.r = 0; bool pe = i + 1 == p.p.size(), ae = i + 1 == a.size();
		if(pe || ae){ m.r = (pe ? 2 : 0) | (ae ? 1 : 0); m.po = p.end[i]; m.ao = ao; return m; }
	}
}
static inline MRes refMatch(const std::string &p, const std::string &a){ return refMatch(parsePat(p), parts(a)); }
