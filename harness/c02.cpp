// C02: exact bytes, exact announced sizes, no write outside the caller's buffer
#include "spaces.hpp"
const char *PROP = "C02";
std::string bounds(){ return spaceDesc(vc::tier) + growDesc(vc::tier ? 600 : 150) + "; reference bytes under two memory fills; every buffer size 0..len+8 (bundle, message, value encoders) in exactly sized heap blocks"; }
void warmup(){}
static void sizes(const char *what, const std::string &want, const std::function<size_t(char *, size_t)> &f, bool partial_ok){
	size_t n0 = f(NULL, 0);
	CHECK(n0 == want.size(), "%s: announced size %zu, encoded size %zu", what, n0, want.size());
	for(size_t n = 0; n <= want.size() + 8; n++){
		if(n > 40 && n + 40 < want.size()){ continue; }
		Buf b(n);
		size_t r = f(b.p, n);
		vc::trans();
		if(n >= want.size()){
			CHECK(r == want.size(), "%s: buffer of %zu (need %zu): returned %zu", what, n, want.size(), r);
			CHECK(!memcmp(b.p, want.data(), want.size()), "%s: buffer of %zu: bytes %s, want %s", what, n, vc::hex(b.p, want.size()).c_str(), vc::hex(want.data(), want.size()).c_str());
			for(size_t k = want.size(); k < n; k++) CHECK(b.p[k] == 0x5b, "%s: wrote past the end of the encoding", what);
		}
	}
}
static void bndl(const Bndl &b){
			std::string want = enc(b); vc::state(want);
			for(int pass = 0; pass < 2; pass++){
				vc::fill = pass ? 0x3c : 0xA5;
				t_osc_bndl_u *u = mkB(b);
				t_osc_bndl_s *s = osc_bundle_u_serialize(u);
				long n = osc_bundle_s_getLen(s); char *p = osc_bundle_s_getPtr(s);
				CHECK(osc_bundle_u_getSerializedSize(u) == n, "announced size %ld, encoded %ld", osc_bundle_u_getSerializedSize(u), n);
				CHECK(n == (long)want.size() && !memcmp(p, want.data(), n), "bytes %s, want %s", vc::hex(p, n).c_str(), vc::hex(want.data(), want.size()).c_str());
				vc::trans(2);
				if(pass) break;
				sizes("bundle", want, [&](char *bp, size_t bn){ return osc_bundle_u_nserialize(bp, bn, u); }, false);
				int k = 0;
				for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m), k++){
					std::string e = enc(b.m[k]), mw; be(mw, e.size(), 4); mw += e;
					if(b.m.size() < 4 || k < 2) sizes("message", mw, [&](char *bp, size_t bn){ return osc_message_u_nserialize(bp, bn, m); }, false);
					t_osc_msg_s *ms = osc_message_u_serialize(m);
					CHECK(osc_message_u_getSerializedSize(m) == (long)mw.size() && osc_message_s_getSize(ms) + 4 == (long)mw.size() && !memcmp(osc_message_s_getPtr(ms), mw.data(), mw.size()), "message bytes %s, want %s", vc::hex(osc_message_s_getPtr(ms), mw.size()).c_str(), vc::hex(mw.data(), mw.size()).c_str());
					for(size_t j = 0; j < b.m[k].v.size() && j < 6; j++){
						t_osc_atom_u *a = osc_message_u_getArg(m, j);
						std::string aw = enc(b.m[k].v[j]);
						CHECK(osc_atom_u_getSerializedSize(a) == (long)aw.size(), "value %zu announces %ld, is %zu", j, osc_atom_u_getSerializedSize(a), aw.size());
						sizes("value", aw, [&](char *bp, size_t bn){ return osc_atom_u_nserialize(bp, bn, a); }, false);
						t_osc_atom_s *as = osc_atom_u_serialize(a);
						CHECK(osc_atom_s_getTypetag(as) == b.m[k].v[j].t && (aw.empty() || !memcmp(osc_atom_s_getData(as), aw.data(), aw.size())), "value bytes differ");
						CHECK(osc_atom_s_sizeof(as) == aw.size(), "osc_atom_s_sizeof %zu, want %zu", osc_atom_s_sizeof(as), aw.size());
						vc::trans(2);
					}
				}
			}
			// encoded values written in place
			for(auto &m : b.m) for(auto &v : m.v){
				if(!isint(v.t) && !isflt(v.t) && v.t != 't') continue;
				t_osc_atom_s *a = osc_atom_s_alloc(v.t, NULL);
				switch(v.t){
				case 'c': osc_atom_s_setInt8(a, v.i); break; case 'C': osc_atom_s_setUInt8(a, v.i); break;
				case 'u': osc_atom_s_setInt16(a, v.i); break; case 'U': osc_atom_s_setUInt16(a, v.i); break;
				case 'i': osc_atom_s_setInt32(a, v.i); break; case 'I': osc_atom_s_setUInt32(a, v.i); break;
				case 'h': osc_atom_s_setInt64(a, v.i); break; case 'H': osc_atom_s_setUInt64(a, v.i); break;
				case 'f': osc_atom_s_setFloat(a, v.d); break; case 'd': osc_atom_s_setDouble(a, v.d); break;
				case 't': osc_atom_s_setTimetag(a, mktt(v.i)); break;
				}
				std::string w = enc(v);
				CHECK(osc_atom_s_getTypetag(a) == v.t && !memcmp(osc_atom_s_getData(a), w.data(), w.size()), "encoded store of %s gives %s", str(v).c_str(), vc::hex(osc_atom_s_getData(a), w.size()).c_str());
				vc::trans();
			}
}
void explore(){
	forBundles(vc::tier, [](const Bndl &b){ CASE(str(b), { bndl(b); }); });
	forGrowing(vc::tier ? 600 : 150, [](int kind, int n, const Bndl &b){ CASE(growName(kind, n), { bndl(b); }); });
}
