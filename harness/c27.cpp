// C27: life cycles of objects, every block accounted for
#include "ref.hpp"
#include "text.hpp"
#include "stmts.hpp"
#include "forms.hpp"
extern "C" {
#include "osc_expr.h"
#include "osc_expr_rec.h"
#include "osc_vtable.h"
#include "osc_dispatch.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_match.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
const char *PROP = "C27";
static int depth(int st){ return vc::tier && st == 0 ? 4 : 3; }
// blocks the library took from malloc itself
static const int NF = 4096; static const volatile void *fp[NF]; static int nforeign; static bool inlib;
static void mhook(const volatile void *p, size_t){ if(!inlib || vc::in_alloc) return; for(int k = 0; k < NF; k++) if(!fp[k]){ fp[k] = p; nforeign++; return; } }
static void fhook(const volatile void *p){ if(!nforeign || !p) return; for(int k = 0; k < NF; k++) if(fp[k] == p){ fp[k] = NULL; nforeign--; return; } }
struct World {
	static const int C = 4;
	t_osc_atom_u *A[C]; t_osc_msg_u *M[C]; t_osc_bndl_u *B[C]; t_osc_bndl_s *S[C]; t_osc_msg_s *P[C]; t_osc_array *R[C]; t_osc_expr *X[C]; t_osc_rset *Q[C];
	int a = 0, m = 0, b = 0, s = 0, p = 0, r = 0, x = 0, q = 0;
};
#define PUSH(V, n, e) do{ if(w.n >= World::C) return false; w.V[w.n] = e; w.n++; return true; }while(0)
#define TOP(V, n) w.V[w.n - 1]
#define NEED(n, k) if(w.n < (k)) return false
#define ROOM(n) if(w.n >= World::C) return false
typedef bool (*OpF)(World &w);
struct Op { const char *name; OpF f; };
static char BLOB[] = {0, 0, 0, 3, 'x', 'y', 'z', 0};
static char *dup(const char *s){ char *c = (char *)osc_mem_alloc(strlen(s) + 1); strcpy(c, s); return c; }
static t_osc_msg_u *newM(const char *a){ t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, a); return m; }
static t_osc_bndl_u *newB(const char *a){ t_osc_bndl_u *b = osc_bundle_u_alloc(); t_osc_msg_u *m = newM(a); osc_message_u_appendInt32(m, 1); osc_message_u_appendString(m, "s"); osc_bundle_u_addMsg(b, m); m = newM("/k/l"); osc_message_u_appendBlob(m, BLOB); osc_bundle_u_addMsg(b, m); return b; }
static bool evalS(World &w, t_osc_expr *x){ t_osc_bndl_s *s = TOP(S, s); long n = osc_bundle_s_getLen(s); char *p = osc_bundle_s_getPtr(s); for(; x; x = osc_expr_next(x)){ t_osc_atom_ar_u *o = NULL; osc_expr_eval(x, &n, &p, &o, NULL); if(o) osc_atom_array_u_free(o); } osc_bundle_s_setLen(s, n); osc_bundle_s_setPtr(s, p); return true; }
static void method(t_osc_vtable_entry *, long, char *, t_osc_bndl_s *, t_osc_bndl_s *, void *){}
static void noop(t_osc_msg_s *, void *){}
static const Op OPS[] = {
	// values
	{"new value", [](World &w){ PUSH(A, a, osc_atom_u_alloc()); }},
	{"set value to a string", [](World &w){ NEED(a, 1); osc_atom_u_setString(TOP(A, a), "hello"); return true; }},
	{"set value to a string it may free", [](World &w){ NEED(a, 1); osc_atom_u_setStringPtr(TOP(A, a), dup("world")); osc_atom_u_setShouldFreePtr(TOP(A, a), 1); return true; }},
	{"set value to a blob", [](World &w){ NEED(a, 1); osc_atom_u_setBlob(TOP(A, a), BLOB); return true; }},
	{"set value to a number", [](World &w){ NEED(a, 1); osc_atom_u_setInt32(TOP(A, a), 7); return true; }},
	{"set value to a timetag", [](World &w){ NEED(a, 1); t_osc_timetag t = OSC_TIMETAG_NULL; osc_atom_u_setTimetag(TOP(A, a), t); return true; }},
	{"give value a bundle", [](World &w){ NEED(a, 1); NEED(b, 1); osc_atom_u_setBndl_u(TOP(A, a), TOP(B, b)); w.b--; return true; }},
	{"set value to an encoded bundle", [](World &w){ NEED(a, 1); NEED(s, 1); osc_atom_u_setBndl_s(TOP(A, a), osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s))); return true; }},
	{"copy value", [](World &w){ NEED(a, 1); PUSH(A, a, osc_atom_u_copy(TOP(A, a))); }},
	{"copy value into the other", [](World &w){ NEED(a, 2); osc_atom_u_copyInto(&w.A[w.a - 2], TOP(A, a)); return true; }},
	{"clear value", [](World &w){ NEED(a, 1); osc_atom_u_clear(TOP(A, a)); return true; }},
	{"free value", [](World &w){ NEED(a, 1); osc_atom_u_free(TOP(A, a)); w.a--; return true; }},
	{"read value as text, blob and bundle", [](World &w){ NEED(a, 1); char *s = NULL; osc_atom_u_getString(TOP(A, a), 0, &s); if(s) osc_mem_free(s); char *bl = NULL; int32_t n; osc_atom_u_getBlobCopy(TOP(A, a), &n, &bl); if(bl) osc_mem_free(bl); s = osc_atom_u_format(TOP(A, a)); if(s) osc_mem_free(s); osc_atom_u_getBlobLen(TOP(A, a)); return true; }},
	{"serialize value", [](World &w){ NEED(a, 1); t_osc_atom_s *s = osc_atom_u_serialize(TOP(A, a)); if(s){ char *d = osc_atom_s_getData(s); osc_atom_s_free(s); if(d) osc_mem_free(d); } return true; }},
	// messages
	{"new message", [](World &w){ PUSH(M, m, newM("/a")); }},
	{"append value", [](World &w){ NEED(m, 1); NEED(a, 1); osc_message_u_appendAtom(TOP(M, m), TOP(A, a)); w.a--; return true; }},
	{"prepend value", [](World &w){ NEED(m, 1); NEED(a, 1); osc_message_u_prependAtom(TOP(M, m), TOP(A, a)); w.a--; return true; }},
	{"insert value", [](World &w){ NEED(m, 1); NEED(a, 1); osc_message_u_insertAtom(TOP(M, m), TOP(A, a), 1); w.a--; return true; }},
	{"append a string and a blob", [](World &w){ NEED(m, 1); osc_message_u_appendString(TOP(M, m), "str"); osc_message_u_appendBlob(TOP(M, m), BLOB); return true; }},
	{"append an encoded bundle", [](World &w){ NEED(m, 1); NEED(s, 1); osc_message_u_appendBndl_s(TOP(M, m), osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s))); return true; }},
	{"append a bundle", [](World &w){ NEED(m, 1); NEED(b, 1); osc_message_u_appendBndl_u(TOP(M, m), TOP(B, b)); w.b--; return true; }},
	{"remove and free the first value", [](World &w){ NEED(m, 1); t_osc_atom_u *a = osc_message_u_getArgCount(TOP(M, m)) ? osc_message_u_getArg(TOP(M, m), 0) : NULL; if(!a) return false; osc_message_u_removeAtom(TOP(M, m), a); osc_atom_u_free(a); return true; }},
	{"overwrite the first value with a number", [](World &w){ NEED(m, 1); t_osc_atom_u *a = osc_message_u_getArgCount(TOP(M, m)) ? osc_message_u_getArg(TOP(M, m), 0) : NULL; if(!a) return false; osc_atom_u_setDouble(a, 1.5); return true; }},
	{"clear the arguments", [](World &w){ NEED(m, 1); osc_message_u_clearArgs(TOP(M, m)); return true; }},
	{"readdress message", [](World &w){ NEED(m, 1); osc_message_u_setAddress(TOP(M, m), "/longer/address"); return true; }},
	{"exchange the address", [](World &w){ NEED(m, 1); char *old = NULL; osc_message_u_setAddressPtr(TOP(M, m), dup("/p"), &old); if(old) osc_mem_free(old); return true; }},
	{"copy message", [](World &w){ NEED(m, 1); ROOM(m); t_osc_msg_u *c = NULL; osc_message_u_deepCopy(&c, TOP(M, m)); PUSH(M, m, c); }},
	{"take the arguments as an array", [](World &w){ NEED(m, 1); ROOM(r); PUSH(R, r, osc_message_u_getArgArrayCopy(TOP(M, m))); }},
	{"append an array of values", [](World &w){ NEED(m, 1); NEED(r, 1); osc_message_u_setArgArrayCopy(TOP(M, m), TOP(R, r)); return true; }},
	{"message with an array of values", [](World &w){ NEED(r, 1); PUSH(M, m, osc_message_u_allocWithArray((char *)"/w", TOP(R, r))); }},
	{"encode message", [](World &w){ NEED(m, 1); ROOM(p); PUSH(P, p, osc_message_u_serialize(TOP(M, m))); }},
	{"print message", [](World &w){ NEED(m, 1); char *t = osc_message_u_format(TOP(M, m)); if(t) osc_mem_free(t); return true; }},
	{"free message", [](World &w){ NEED(m, 1); osc_message_u_free(TOP(M, m)); w.m--; return true; }},
	// bundles
	{"new bundle", [](World &w){ PUSH(B, b, osc_bundle_u_alloc()); }},
	{"new bundle with messages", [](World &w){ PUSH(B, b, newB("/a")); }},
	{"add message", [](World &w){ NEED(b, 1); NEED(m, 1); osc_bundle_u_addMsg(TOP(B, b), TOP(M, m)); w.m--; return true; }},
	{"add copy of message", [](World &w){ NEED(b, 1); NEED(m, 1); osc_bundle_u_addMsgCopy(TOP(B, b), TOP(M, m)); return true; }},
	{"add message without duplicates", [](World &w){ NEED(b, 1); NEED(m, 1); osc_bundle_u_addMsgWithoutDups(TOP(B, b), TOP(M, m)); w.m--; return true; }},
	{"add copy of message without duplicates", [](World &w){ NEED(b, 1); NEED(m, 1); osc_bundle_u_addMsgWithoutDupsCopy(TOP(B, b), TOP(M, m)); return true; }},
	{"replace message", [](World &w){ NEED(b, 1); NEED(m, 1); osc_bundle_u_replaceMessage(TOP(B, b), TOP(M, m)); w.m--; return true; }},
	{"remove message", [](World &w){ NEED(b, 1); osc_bundle_u_removeMessage(TOP(B, b), "/a"); return true; }},
	{"take the first message out", [](World &w){ NEED(b, 1); ROOM(m); t_osc_msg_u *m = osc_bundle_u_getFirstMsg(TOP(B, b)); if(!m) return false; osc_bundle_u_removeMsg(TOP(B, b), m); PUSH(M, m, m); }},
	{"clear bundle", [](World &w){ NEED(b, 1); osc_bundle_u_clear(TOP(B, b)); return true; }},
	{"copy bundle", [](World &w){ NEED(b, 1); ROOM(b); t_osc_bndl_u *c = NULL; osc_bundle_u_copy(&c, TOP(B, b)); PUSH(B, b, c); }},
	{"union of bundles", [](World &w){ NEED(b, 2); ROOM(b); t_osc_bndl_u *c = NULL; osc_bundle_u_union(w.B[w.b - 2], TOP(B, b), &c); PUSH(B, b, c); }},
	{"intersection of bundles", [](World &w){ NEED(b, 2); ROOM(b); t_osc_bndl_u *c = NULL; osc_bundle_u_intersection(w.B[w.b - 2], TOP(B, b), &c); PUSH(B, b, c); }},
	{"explode bundle", [](World &w){ NEED(b, 1); ROOM(b); t_osc_bndl_u *c = NULL; osc_bundle_u_explode(&c, TOP(B, b), 0, (char *)"/"); PUSH(B, b, c); }},
	{"flatten bundle", [](World &w){ NEED(b, 1); ROOM(b); t_osc_bndl_u *c = NULL; osc_bundle_u_flatten(&c, TOP(B, b), 0, (char *)"/", 1); PUSH(B, b, c); }},
	{"look messages up", [](World &w){ NEED(b, 1); t_osc_msg_ar_u *r = osc_bundle_u_lookupAddress(TOP(B, b), "/*", 1); if(r) osc_message_array_u_free(r); return true; }},
	{"add an array of messages", [](World &w){ NEED(b, 1); t_osc_msg_ar_u *r = osc_bundle_u_lookupAddress(TOP(B, b), "/a", 1); if(!r) return false; osc_bundle_u_addMsgArrayCopy(w.B[0], r); osc_message_array_u_free(r); return true; }},
	{"walk bundle", [](World &w){ NEED(b, 1); t_osc_bndl_it_u *i = osc_bndl_it_u_get(TOP(B, b)); while(osc_bndl_it_u_hasNext(i)){ t_osc_msg_it_u *j = osc_msg_it_u_get(osc_bndl_it_u_next(i)); while(osc_msg_it_u_hasNext(j)) osc_msg_it_u_next(j); osc_msg_it_u_destroy(j); } osc_bndl_it_u_destroy(i); return true; }},
	{"encode bundle", [](World &w){ NEED(b, 1); ROOM(s); PUSH(S, s, osc_bundle_u_serialize(TOP(B, b))); }},
	{"print bundle", [](World &w){ NEED(b, 1); char *t = osc_bundle_u_format(TOP(B, b)); if(t) osc_mem_free(t); return true; }},
	{"print and parse bundle", [](World &w){ NEED(b, 1); ROOM(b); char *t = osc_bundle_u_format(TOP(B, b)); t_osc_bndl_u *c = NULL; osc_parser_parseString(strlen(t), t, &c); osc_mem_free(t); if(!c) return false; PUSH(B, b, c); }},
	{"free bundle", [](World &w){ NEED(b, 1); osc_bundle_u_free(TOP(B, b)); w.b--; return true; }},
	// encoded
	{"new encoded bundle", [](World &w){ PUSH(S, s, osc_bundle_s_allocEmptyBundle()); }},
	{"decode bundle", [](World &w){ NEED(s, 1); ROOM(b); PUSH(B, b, osc_bundle_s_deserialize(osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s)))); }},
	{"copy encoded bundle", [](World &w){ NEED(s, 1); ROOM(s); t_osc_bndl_s *c = NULL; osc_bundle_s_deepCopy(&c, TOP(S, s)); PUSH(S, s, c); }},
	{"append encoded message", [](World &w){ NEED(s, 1); NEED(p, 1); osc_bundle_s_appendMessage_b(&TOP(S, s), TOP(P, p)); return true; }},
	{"remove from encoded bundle", [](World &w){ NEED(s, 1); long n = osc_bundle_s_getLen(TOP(S, s)); osc_bundle_s_removeMessage((char *)"/a", &n, osc_bundle_s_getPtr(TOP(S, s)), 1); osc_bundle_s_setLen(TOP(S, s), n); return true; }},
	{"look up in encoded bundle", [](World &w){ NEED(s, 1); t_osc_msg_ar_s *r = osc_bundle_s_lookupAddress_b(TOP(S, s), "/*", 1); if(r) osc_array_free(r); osc_bundle_s_getMessagesWithCallback(osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s)), noop, NULL); return true; }},
	{"first encoded message", [](World &w){ NEED(s, 1); t_osc_msg_s *f = osc_bundle_s_getFirstMsg(TOP(S, s)); if(f){ t_osc_msg_u *u = osc_message_s_deserialize(f); osc_message_s_free(f); if(u) osc_message_u_free(u); } return true; }},
	{"walk encoded bundle", [](World &w){ NEED(s, 1); t_osc_bndl_it_s *i = osc_bndl_it_s_get(osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s))); while(osc_bndl_it_s_hasNext(i)){ t_osc_msg_it_s *j = osc_msg_it_s_get(osc_bndl_it_s_next(i)); while(osc_msg_it_s_hasNext(j)){ t_osc_atom_s *a = osc_msg_it_s_next(j); char *t = osc_atom_s_format(a); if(t) osc_mem_free(t); t_osc_atom_u *u = osc_atom_s_deserialize(a); if(u) osc_atom_u_free(u); } osc_msg_it_s_destroy(j); } osc_bndl_it_s_destroy(i); return true; }},
	{"union of encoded bundles", [](World &w){ NEED(s, 2); ROOM(s); PUSH(S, s, osc_bundle_s_union(w.S[w.s - 2], TOP(S, s))); }},
	{"intersection and difference of encoded bundles", [](World &w){ NEED(s, 2); for(int d = 0; d < 2; d++){ long n = 0; char *o = NULL; (d ? osc_bundle_s_difference : osc_bundle_s_intersection)(osc_bundle_s_getLen(w.S[w.s - 2]), osc_bundle_s_getPtr(w.S[w.s - 2]), osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s)), &n, &o); if(o) osc_mem_free(o); } return true; }},
	{"explode encoded bundle", [](World &w){ NEED(s, 1); ROOM(s); t_osc_bndl_s *c = NULL; osc_bundle_s_explode(&c, TOP(S, s), 0, (char *)"/"); PUSH(S, s, c); }},
	{"flatten encoded bundle", [](World &w){ NEED(s, 1); ROOM(s); t_osc_bndl_s *c = NULL; osc_bundle_s_flatten(&c, TOP(S, s), 0, (char *)"/", 1); PUSH(S, s, c); }},
	{"print encoded bundle", [](World &w){ NEED(s, 1); char *t = osc_bundle_s_format(osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s))); if(t) osc_mem_free(t); t = osc_bundle_s_pformat(TOP(S, s)); if(t) osc_mem_free(t); return true; }},
	{"query encoded bundle", [](World &w){ NEED(s, 1); ROOM(q); char *sel[] = {(char *)"/a", (char *)"/k"}; t_osc_rset *r = NULL; osc_query_select(2, sel, osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s)), 1, &r); if(!r) return false; PUSH(Q, q, r); }},
	{"dispatch encoded bundle", [](World &w){ NEED(s, 1); t_osc_vtable *v = osc_vtable_alloc(1); for(const char *n : {"/a", "/k", "/k/l", "/zz"}) osc_vtable_addEntry(v, (char *)n, method, NULL); osc_vtable_renameEntry(v, (char *)"/zz", (char *)"/q"); osc_dispatch(v, osc_bundle_s_getLen(TOP(S, s)), osc_bundle_s_getPtr(TOP(S, s)), 1); osc_vtable_free(v); return true; }},
	{"free encoded bundle", [](World &w){ NEED(s, 1); osc_bundle_s_deepFree(TOP(S, s)); w.s--; return true; }},
	{"print encoded message", [](World &w){ NEED(p, 1); char *t = osc_message_s_format(TOP(P, p)); if(t) osc_mem_free(t); return true; }},
	{"copy encoded message", [](World &w){ NEED(p, 1); t_osc_msg_s *c = NULL; osc_message_s_copy(&c, TOP(P, p)); if(c) osc_message_s_free(c); return true; }},
	{"decode message", [](World &w){ NEED(p, 1); ROOM(m); PUSH(M, m, osc_message_s_deserialize(TOP(P, p))); }},
	{"read encoded values", [](World &w){ NEED(p, 1); t_osc_atom_s *a = NULL; for(int k = 0; k < osc_message_s_getArgCount(TOP(P, p)); k++){ osc_message_s_getArg(TOP(P, p), k, &a); char *s = NULL; osc_atom_s_getString(a, 0, &s); if(s) osc_mem_free(s); char *bl = NULL; int32_t n = 0; osc_atom_s_getBlobCopy(&bl, &n, a); if(bl) osc_mem_free(bl); t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a); if(b) osc_bundle_s_deepFree(b); } if(a) osc_atom_s_free(a); return true; }},
	{"free encoded message", [](World &w){ NEED(p, 1); osc_message_s_deepFree(TOP(P, p)); w.p--; return true; }},
	// arrays, queries, expressions
	{"copy array", [](World &w){ NEED(r, 1); ROOM(r); PUSH(R, r, osc_atom_array_u_copy(TOP(R, r))); }},
	{"copy array into the other", [](World &w){ NEED(r, 2); osc_atom_array_u_copyInto(&w.R[w.r - 2], TOP(R, r), 1); return true; }},
	{"typed arrays", [](World &w){ NEED(r, 1); double *d = NULL; int32_t *i = NULL; char *c = NULL, *s = NULL; long n; osc_atom_array_u_getDoubleArray(TOP(R, r), &d); osc_atom_array_u_getInt32Array(TOP(R, r), &i); osc_atom_array_u_getBoolArray(TOP(R, r), &c); osc_atom_array_u_getStringArray(TOP(R, r), &n, &s, ", "); if(d) osc_mem_free(d); if(i) osc_mem_free(i); if(c) osc_mem_free(c); if(s) osc_mem_free(s); return true; }},
	{"free array", [](World &w){ NEED(r, 1); osc_atom_array_u_free(TOP(R, r)); w.r--; return true; }},
	{"free query result", [](World &w){ NEED(q, 1); osc_rset_free(TOP(Q, q)); w.q--; return true; }},
	{"parse expression", [](World &w){ ROOM(x); t_osc_expr *e = NULL; char t[] = "/a = map(lambda([x], [x, \"q\"]), [1, 2]), /k./l = {/n : /a}, delete(/nope), apply(lambda([u], apply(lambda([v], [u, v]), \"p\")), [1, 2])"; osc_expr_parser_parseExpr(t, &e, NULL); PUSH(X, x, e); }},
	{"parse a wrong expression", [](World &w){ ROOM(x); for(const char *c : {"/a = lambda([x, y], x + ), 3", "nosuch(1, \"s\")", "/a = [1, {/x : 2}", "lambda([x], sin(x, 2))"}){ char t[64]; strcpy(t, c); t_osc_expr *e = NULL; osc_expr_parser_parseExpr(t, &e, NULL); if(e) osc_expr_free(e); } return true; }},
	{"parse a failing expression", [](World &w){ ROOM(x); t_osc_expr *e = NULL; char t[] = "/a[[0]] = [/nope, 2], map(lambda([x], x + /nope), /a), join(/a, \",\", /a), /a = /a + \"s\""; osc_expr_parser_parseExpr(t, &e, NULL); PUSH(X, x, e); }},
	{"copy expression", [](World &w){ NEED(x, 1); ROOM(x); t_osc_expr *c = NULL; osc_expr_copyAllLinked(&c, TOP(X, x)); PUSH(X, x, c); }},
	{"evaluate expression", [](World &w){ NEED(x, 1); NEED(s, 1); return evalS(w, TOP(X, x)); }},
	{"free expression", [](World &w){ NEED(x, 1); osc_expr_free(TOP(X, x)); w.x--; return true; }},
	{"parse wrong text", [](World &w){ NEED(b, 1); for(const char *c : {"/a : {/b : 1", "/a 1, /b [\"x\", ", "/a \"s", "{/a : 1}"}){ t_osc_bndl_u *b = NULL; char t[64]; strcpy(t, c); osc_parser_parseString(strlen(t), t, &b); if(b) osc_bundle_u_free(b); } return true; }},
	// which object is worked on
	{"other value", [](World &w){ NEED(a, 2); std::swap(w.A[0], TOP(A, a)); return true; }},
	{"other message", [](World &w){ NEED(m, 2); std::swap(w.M[0], TOP(M, m)); return true; }},
	{"other bundle", [](World &w){ NEED(b, 2); std::swap(w.B[0], TOP(B, b)); return true; }},
	{"other encoded bundle", [](World &w){ NEED(s, 2); std::swap(w.S[0], TOP(S, s)); return true; }},
};
static const int N = sizeof OPS / sizeof *OPS;
static void start(World &w, int k){
	if(k == 0) return;
	w.A[w.a++] = osc_atom_u_alloc(); osc_atom_u_setString(w.A[0], "v");
	t_osc_msg_u *m = newM("/a"); osc_message_u_appendString(m, "x"); osc_message_u_appendInt32(m, 3); osc_message_u_appendBndl_u(m, newB("/in")); w.M[w.m++] = m;
	t_osc_bndl_u *b = newB("/a"); m = newM("/a"); osc_message_u_appendBndl_u(m, newB("/k")); osc_bundle_u_addMsg(b, m); m = newM("/b"); osc_bundle_u_addMsg(b, m); w.B[w.b++] = b; w.S[w.s++] = osc_bundle_u_serialize(b); w.P[w.p++] = osc_message_u_serialize(w.M[0]);
	if(k == 1) return;
	w.B[w.b++] = newB("/a/x"); w.S[w.s++] = osc_bundle_u_serialize(w.B[1]); w.R[w.r++] = osc_message_u_getArgArrayCopy(w.M[0]); w.R[w.r++] = osc_atom_array_u_copy(w.R[0]); OPS[0].f(w); for(auto &o : OPS) if(!strcmp(o.name, "parse expression")) o.f(w);
}
static void touch(World &w){ for(const char *n : {"read value as text, blob and bundle", "serialize value", "print message", "walk bundle", "print bundle", "walk encoded bundle", "print encoded bundle", "print encoded message", "read encoded values", "typed arrays", "copy array"}) for(auto &o : OPS) if(!strcmp(o.name, n)) o.f(w); }
static void finish(World &w, bool backwards){
	while(w.q) osc_rset_free(w.Q[--w.q]); while(w.r) osc_atom_array_u_free(w.R[--w.r]); while(w.x) osc_expr_free(w.X[--w.x]);
	auto a = [&]{ while(w.a) osc_atom_u_free(w.A[--w.a]); }; auto m = [&]{ while(w.m) osc_message_u_free(w.M[--w.m]); }; auto b = [&]{ while(w.b) osc_bundle_u_free(w.B[--w.b]); }; auto s = [&]{ while(w.s) osc_bundle_s_deepFree(w.S[--w.s]); }; auto p = [&]{ while(w.p) osc_message_s_deepFree(w.P[--w.p]); };
	if(backwards){ p(); s(); b(); m(); a(); } else { a(); m(); b(); s(); p(); }
}
static uint64_t shape(const World &w){ return vc::hash((std::string(1, w.a) + std::string(1, w.m) + std::string(1, w.b) + std::string(1, w.s) + std::string(1, w.p) + std::string(1, w.r) + std::string(1, w.x) + std::string(1, w.q)).data(), 8); }
static bool run(int st, const int *seq, int n){
	World w; bool ok = true; inlib = true; start(w, st); for(int k = 0; k < n && ok; k++) ok = OPS[seq[k]].f(w); if(ok) vc::state(vc::hash("", 0, shape(w))); if(ok) touch(w); finish(w, (n + seq[0]) % 2); inlib = false; vc::trans(n);
	auto say = [&]{ std::string r = vc::fmt("start %d: ", st); for(int k = 0; k < n; k++) r += std::string(OPS[seq[k]].name) + "; "; return r; };
	CHECK(vc::live() == 0, "%s%ld blocks remain: %s", say().c_str(), vc::live(), vc::live_desc().c_str());
	CHECK(vc::foreign_frees == 0, "%s%ld blocks that did not come from the configured allocator are freed with it", say().c_str(), vc::foreign_frees);
	CHECK(nforeign == 0, "%s%d blocks taken from malloc remain", say().c_str(), nforeign);
	return ok;
}
// ---- texts: parsed, copied, printed, evaluated and freed
static bool strict_ok(const std::string &what){
	CHECK(vc::live() == 0, "%s: %ld blocks remain: %s", vc::q(what).c_str(), vc::live(), vc::live_desc().c_str());
	CHECK(vc::foreign_frees == 0, "%s: %ld blocks that did not come from the configured allocator are freed with it", vc::q(what).c_str(), vc::foreign_frees);
	CHECK(nforeign == 0, "%s: %d blocks taken from malloc remain", vc::q(what).c_str(), nforeign); return true;
}
static void life(const std::string &text, const std::vector<std::string> &on){
	std::vector<char> t(text.begin(), text.end()); t.push_back(0); inlib = true; t_osc_expr *f = NULL, *c = NULL; osc_expr_parser_parseExpr(t.data(), &f, NULL); vc::trans();
	if(f){
		osc_expr_copyAllLinked(&c, f); long n = 0; char *p = NULL; osc_expr_format(c, &n, &p); if(p) osc_mem_free(p); osc_expr_free(c);
		for(auto &b : on){ long len = b.size(); char *y = (char *)osc_mem_alloc(len + 1); memcpy(y, b.data(), len); for(t_osc_expr *e = f; e; e = osc_expr_next(e)) for(int k = 0; k < 2; k++){ t_osc_atom_ar_u *o = NULL; osc_expr_eval(e, &len, &y, &o, NULL); vc::trans(); if(o){ char *s = NULL; long sn = 0; osc_atom_array_u_getStringArray(o, &sn, &s, " "); if(s) osc_mem_free(s); osc_atom_array_u_free(o); } } osc_mem_free(y); }
		osc_expr_free(f);
	}
	inlib = false; strict_ok(text);
}
static void textlife(const std::string &text){
	std::vector<char> t(text.begin(), text.end()); t.push_back(0); inlib = true; t_osc_bndl_u *b = NULL; osc_parser_parseString(text.size(), t.data(), &b); vc::trans();
	if(b){ char *s = osc_bundle_u_format(b); if(s) osc_mem_free(s); t_osc_bndl_s *w = osc_bundle_u_serialize(b); osc_bundle_u_free(b); if(w){ s = osc_bundle_s_pformat(w); if(s) osc_mem_free(s); osc_bundle_s_deepFree(w); } }
	inlib = false; strict_ok(text);
}
static void texts(){
	static std::vector<std::string> on; for(auto &b : starts()) if(b.m.size()) on.push_back(enc(b)); auto begin = []{ nforeign = 0; memset(fp, 0, sizeof fp); inlib = false; };
	for(auto &th : themes()) for(size_t k = 0; k < th.st.size(); k += 8) CASE(vc::fmt("%s statements from %s", th.name, th.st[k].c_str()), { begin(); for(size_t j = k; j < std::min(th.st.size(), k + 8); j++){ auto &s = th.st[j]; life(s, on); for(size_t n = 0; n < s.size(); n++){ life(s.substr(0, n), {}); life(s.substr(n), {}); life(s.substr(0, n) + s.substr(n + 1), {}); if(vc::tier) for(const char *x : {",", "(", ")", "[", "]", "{", "}", "=", "\""}) life(s.substr(0, n) + x + s.substr(n), {}); } for(auto &s2 : th.st) life(s + ", " + s2, on); } });
	static const std::vector<std::string> any{"/x", "/nope", "2", "[7, 2.5, \"s\"]", "\"/y\"", "nil", "/y = 4"}, few{"/x", "/nope", "1"}, one{"/x"}, addr{"/x", "/q", "/b"}, addr1{"/y"}; auto with = [](std::vector<std::string> v){ v.insert(v.begin(), "a"); return v; };
	static std::vector<std::string> C, Ca; for(auto &t : T1){ fills(t, {"/x", "/nope"}, addr1, one, [&](const std::string &s){ C.push_back("(" + s + ")"); }); fills(t, {"a"}, addr1, {"a"}, [&](const std::string &s){ Ca.push_back("(" + s + ")"); }); }
	for(auto &t : T1) CASE(t + " of simple operands", { begin(); auto &v = holes(t) > 3 ? few : any; fills(t, v, addr, with(v), [&](const std::string &s){ life(s, on); }); });
	for(auto &t : T1) for(size_t h = 0; h < holes(t); h++) if(kind(t, h) != '#') CASE(vc::fmt("%s with operand %zu composed", t.c_str(), h), { begin(); auto &D = kind(t, h) == '~' ? Ca : C; for(auto &c : D){ std::string u; size_t q = 0; for(char d : t) if((d == '%' || d == '#' || d == '~') && q++ == h) u += c; else u += d; auto &v = vc::tier ? few : one; fills(u, v, addr1, with(v), [&](const std::string &s){ life(s, on); }); fills(u, one, addr1, one, [&](const std::string &s){ life(s.substr(0, s.size() - 1), {}); }); } });
	// every built-in function
	static const std::vector<std::string> O{"/x", "/nope", "2", "\"/x\"", "[]", "/b", "lambda([p], p)", "[1, 2.5, \"s\"]", "nil", "lambda([p, q], [q, {/k : p}])"};
	for(auto &a : ARITY){ std::string name = a.n; if(!isalpha((unsigned char)name[0]) || name == "lambda" || name == "quickhull") continue; CASE("function " + name, { begin(); int lo = a.r, hi = std::min(lo + (a.o < 0 ? 3 : a.o), std::max(lo, 3)); std::function<void(std::string, int)> go = [&](const std::string &args, int n){ life("/r = " + name + "(" + args + ")", on); if(n < hi + 1) for(size_t k = 0; k < (n > 2 ? 3 : n > 1 ? 6 : O.size()); k++) go(args + (n ? ", " : "") + O[k], n + 1); }; go("", 0); }); }
	// texts of bundles
	static const char *T[] = {"/a", ":", ",", "[", "]", "{", "}", "1", "\"s\"", "\"", "2001-02-03T04:05:06Z", "?"}; const int NT = sizeof T / sizeof *T, D = vc::tier ? 6 : 5;
	for(int i = 0; i < NT; i++) for(int j = 0; j < NT; j++) CASE(vc::fmt("texts %s %s ...", T[i], T[j]), { begin(); std::function<void(const std::string &, int)> go = [&](const std::string &s, int n){ textlife(s); if(n < D) for(auto *x : T) go(s + " " + x, n + 1); }; go(std::string(T[i]) + " " + T[j], 2); if(!j) textlife(T[i]); });
	for(const char *k : {"/a : [1, 2.5, \"x\", /b, true, nil, 2001-02-03T04:05:06Z, {/k : {/l : [\"q\", {}]}}], /b, /c : {}", "/a : {/b : {/c : {/d : [1, \"two\"]}, /e}}, /f : 'x'"}) CASE(std::string("edits of ") + k, { begin(); std::string s = k; textlife(s); for(size_t i = 0; i <= s.size(); i++){ textlife(s.substr(0, i)); for(const char *x : {"/", ":", ",", "[", "]", "{", "}", "\"", "?", "1", "\\"}){ textlife(s.substr(0, i) + x + s.substr(i)); if(i < s.size()) textlife(s.substr(0, i) + x + s.substr(i + 1)); for(size_t j = i; j < s.size(); j += vc::tier ? 1 : 5) textlife(s.substr(0, i) + x + s.substr(i, j - i) + s.substr(j + 1)); } } });
}
std::string bounds(){ return vc::fmt("every sequence of up to %d of %d operations (values, messages, bundles, encoded messages and bundles, arrays, queries, dispatch, text and expressions) from an empty start and %s; every object left over is read and freed in either order; parsing, copying, printing, evaluating and freeing %zu forms of statements with simple operands and with each operand replaced by every form, statements over all themes with every prefix, suffix and one-character deletion, every function with every tuple of operands up to its arity and one more; parsing, printing and encoding all texts of up to %d tokens", depth(0), N, vc::tier ? "(3 operations) two populated ones" : "a populated one", T1.size(), vc::tier ? 6 : 5); }
void warmup(){ printf(" "); osc_expr_lookupFunction((char *)"sum"); World w; start(w, 2); touch(w); finish(w, true); __sanitizer_install_malloc_and_free_hooks(mhook, fhook); }
void explore(){
	for(int st = 0; st < 3; st++) if(vc::tier || st != 1) for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) CASE(vc::fmt("start %d: %s; %s; ...", st, OPS[a].name, OPS[b].name), {
		nforeign = 0; memset(fp, 0, sizeof fp); inlib = false; int s[8] = {a, b}; if(b == 0 && !run(st, s, 1)) return; { World w; start(w, st); bool ok = OPS[a].f(w); finish(w, false); if(!ok) return; }
		std::function<void(int)> go = [&](int n){ if(!run(st, s, n) || n == depth(st)) return; for(int k = 0; k < N; k++){ s[n] = k; go(n + 1); } }; go(2); });
	texts();
}
