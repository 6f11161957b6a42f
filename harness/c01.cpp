// C01: encode / decode round trip
#include "spaces.hpp"
const char *PROP = "C01";
std::string bounds(){ return spaceDesc(vc::tier + 1) + growDesc(vc::tier ? 1000 : 300) + "; each encoded, decoded, re-encoded (bundle form and single-message form)"; }
void warmup(){}
static void bndl(const Bndl &b){
			std::string want = enc(b);
			vc::state(want);
			t_osc_bndl_u *u = mkB(b);
			t_osc_bndl_s *s = osc_bundle_u_serialize(u);
			CHECK(s, "serialize returned NULL");
			vc::trans(2);
			t_osc_bndl_u *u2 = osc_bundle_s_deserialize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
			Bndl r = rdB(u2);
			CHECK(eq(r, b, false), "decoded %s", str(r).c_str());
			CHECK(eq(rdB(u), b, false), "encoding changed the bundle to %s", str(rdB(u)).c_str());
			t_osc_bndl_s *s2 = osc_bundle_u_serialize(u2);
			CHECK(osc_bundle_s_getLen(s2) == osc_bundle_s_getLen(s), "re-encoded length %ld, was %ld", osc_bundle_s_getLen(s2), osc_bundle_s_getLen(s));
			CHECK(!memcmp(osc_bundle_s_getPtr(s2), osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s)), "re-encoded bytes differ");
			vc::trans(3);
			t_osc_bndl_u *u3 = NULL; osc_bundle_u_copy(&u3, u2);
			CHECK(eq(rdB(u3), b, false), "copy is %s", str(rdB(u3)).c_str());
			// single messages
			int k = 0;
			for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m), k++){
				t_osc_msg_s *ms = osc_message_u_serialize(m);
				t_osc_msg_u *m2 = osc_message_s_deserialize(ms);
				CHECK(eq(rdM(m2), b.m[k]), "message decoded as %s", str(rdM(m2)).c_str());
				t_osc_msg_s *ms2 = osc_message_u_serialize(m2);
				CHECK(osc_message_s_getSize(ms) == osc_message_s_getSize(ms2) && !memcmp(osc_message_s_getPtr(ms), osc_message_s_getPtr(ms2), osc_message_s_getSize(ms) + 4), "message re-encoded differently");
				// single values
				for(size_t j = 0; j < b.m[k].v.size(); j++){
					t_osc_atom_s *as = osc_atom_u_serialize(osc_message_u_getArg(m, j));
					t_osc_atom_u *au = osc_atom_s_deserialize(as);
					CHECK(eq(rdV(au), b.m[k].v[j]), "value %zu decoded as %s", j, str(rdV(au)).c_str());
					vc::trans(2);
				}
				vc::trans(4);
			}
}
void explore(){
	forBundles(vc::tier + 1, [](const Bndl &b){ CASE(str(b), { bndl(b); }); });
	forGrowing(vc::tier ? 1000 : 300, [](int kind, int n, const Bndl &b){ CASE(growName(kind, n), { bndl(b); }); });
}
