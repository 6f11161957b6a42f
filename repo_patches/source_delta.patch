From c1dbcad0ddfe54317b48796a729870787fbf7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 001/169] fix: encode 8- and 16-bit integers by value, not by
 the raw bytes of the cell

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..1a8fef6 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1355,7 +1355,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			int32_t i = (int32_t)osc_atom_u_getUInt32(a);
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
-- 
2.43.0


From 144d144bdaf6631c2bcd4c2b755ccc24c4924609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 002/169] fix: a negative argument index names no argument

---
 osc_message_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..66ccce8 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -214,7 +214,7 @@ char *osc_message_s_getPtr(t_osc_msg_s *m){
 char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return 0;
 	}
 #endif
@@ -224,7 +224,7 @@ char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return;
 	}
 #endif
-- 
2.43.0


From f27bdf72b8b7121ff64be02f25b360b0d9a1a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 003/169] fix: iterating an empty serialized bundle must not
 read past its header

---
 osc_bundle_iterator_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_bundle_iterator_s.c b/osc_bundle_iterator_s.c
index 06d392b..77efc24 100644
--- a/osc_bundle_iterator_s.c
+++ b/osc_bundle_iterator_s.c
@@ -59,6 +59,10 @@ void osc_bundle_iterator_s_resetIterator(t_osc_bndl_it_s *it)
 t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 {
 	t_osc_err e;
+	if(it->len <= OSC_HEADER_SIZE){
+		osc_message_s_initMsg(&(it->msg));
+		return &(it->msg);
+	}
 	if(it->msgptr == it->bndl){
 		it->msgptr += OSC_HEADER_SIZE;
 		e = osc_message_s_wrap(&(it->msg), it->msgptr);
-- 
2.43.0


From ba5ae04153e0074dd0a3c2bd8d4526d57ae55401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 004/169] fix: encoded 8-, 16- and 32-bit integers read as
 64-bit or int keep their value and stay in bounds

---
 osc_atom_s.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..0717f62 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -230,7 +230,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int32_t)ntoh32(*((int32_t *)(a->data)));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +241,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -325,7 +325,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
@@ -363,10 +363,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
-- 
2.43.0


From 78724cd20b9bf278a3aec0f495ed1b0510250724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 005/169] fix: announce the length of the text that is printed
 for an unsigned 8-bit integer

---
 osc_atom_s.c | 2 +-
 osc_atom_u.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 0717f62..56be3e2 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -433,7 +433,7 @@ int osc_atom_s_getStringLen(t_osc_atom_s *a)
 	case 'C': // unsigned 8-bit int
 		{
 			uint8_t i = (uint8_t)ntoh32(*((int32_t *)(a->data)));
-			return osc_strfmt_uint32(NULL, 0, i);
+			return osc_strfmt_uint8(NULL, 0, i);
 		}
 	case 'u': // signed 16-bit int
 		{
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 1a8fef6..a0bb224 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -738,7 +738,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
-- 
2.43.0


From 20b6ab84582ce99757e1a00ec4c3f03895ed6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 006/169] fix: copying a value out as a blob stays in bounds
 and keeps all of its bytes

---
 osc_atom_s.c | 10 ++++++++--
 osc_atom_u.c |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 56be3e2..8a56081 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -697,13 +697,19 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 		*buflen += 4;
 		*blob = osc_mem_alloc(*buflen);
 	}
+	if(*buflen < 4){
+		return OSC_ERR_INVAL;
+	}
+	memset(*blob, '\0', *buflen);
+	// never copy more than the value holds or the buffer can take
+	int32_t n = bloblen < *buflen - 4 ? bloblen : *buflen - 4;
 	switch(osc_atom_s_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->data, *buflen);
+		memcpy(*blob, a->data, n + 4);
 		break;
 	default:
 		*((int32_t *)(*blob)) = hton32(bloblen);
-		memcpy((*blob) + 4, a->data, *buflen);
+		memcpy((*blob) + 4, a->data, n);
 	}
 	return OSC_ERR_NONE;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index a0bb224..9e21f2a 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -941,7 +941,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->w.b, *buflen);
+		memcpy(*blob, a->w.b, bloblen + 4 < *buflen ? bloblen + 4 : *buflen);
 		break;
 	case 'c':
 	case 'C':
@@ -961,7 +961,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	case 'h':
 	case 'H':
 		{
-			int64_t i = a->w.i;
+			int64_t i = a->w.h;
 			*((int32_t *)(*blob)) = hton32(8);
 			*((int64_t *)((*blob) + 4)) = hton64(i);
 		}
-- 
2.43.0


From efc43c9b0dab41929da445edb08d5a01c7277fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 007/169] fix: the size of an in-memory number does not depend
 on its value

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 9e21f2a..f9f2412 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -909,7 +909,7 @@ int32_t osc_atom_u_getBlobLen(t_osc_atom_u *a)
 	case 's':
 		return strlen(a->w.s);
 	default:
-		return osc_sizeof(osc_atom_u_getTypetag(a), a->w.s);
+		return osc_atom_u_sizeof(a);
 	}
 }
 
-- 
2.43.0


From dbc24462882add310cc79b2f547fe985a09ee43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 008/169] fix: encoded timetags and text read the same numbers
 as in memory

---
 osc_atom_s.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 8a56081..b5c150f 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -113,6 +113,8 @@ float osc_atom_s_getFloat(t_osc_atom_s *a)
 		return 1.f;
 	case 'F': // false
 		return 0.f;
+	case OSC_TIMETAG_TYPETAG:
+		return (float)osc_timetag_timetagToFloat(osc_atom_s_getTimetag(a));
 	case 'N': // NULL
 		return 0.f;
 	}
@@ -156,6 +158,8 @@ double osc_atom_s_getDouble(t_osc_atom_s *a)
 		return 1.;
 	case 'F': // false
 		return 0.;
+	case OSC_TIMETAG_TYPETAG:
+		return osc_timetag_timetagToFloat(osc_atom_s_getTimetag(a));
 	case 'N': // NULL
 		return 0.;
 	}
@@ -164,6 +168,9 @@ double osc_atom_s_getDouble(t_osc_atom_s *a)
 
 int8_t osc_atom_s_getInt8(t_osc_atom_s *a)
 {
+	if(a && a->typetag == 's'){
+		return (int8_t)*(a->data);
+	}
 	return (int8_t)osc_atom_s_getInt32(a);
 }
 
@@ -264,6 +271,9 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 
 uint8_t osc_atom_s_getUInt8(t_osc_atom_s *a)
 {
+	if(a && a->typetag == 's'){
+		return (uint8_t)*(a->data);
+	}
 	return (uint8_t)osc_atom_s_getUInt32(a);
 }
 
-- 
2.43.0


From b19337094d6b91b9aa91a6730aee71d8bdc5f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 009/169] fix: a value cell frees what it owns exactly once and
 leaves borrowed memory alone

---
 osc_atom_array_u.c  | 10 +---------
 osc_atom_u.c        | 40 +++++++++++++++++++---------------------
 osc_expr.c          |  5 ++++-
 osc_legacy_parser.y |  8 ++++----
 osc_parser.y        |  8 ++++----
 5 files changed, 32 insertions(+), 39 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index f4f1adc..676125b 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -44,15 +44,7 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar)
 		int i;
 		for(i = 0; i < osc_atom_array_u_getLen(ar); i++){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-			if(a->alloc && a->typetag == 's'){
-				if(a->w.s){
-					osc_mem_free(a->w.s);
-				}
-			}else if(a->typetag == OSC_BUNDLE_TYPETAG){
-				if(a->w.bndl){
-					osc_bundle_u_free(a->w.bndl);
-				}
-			}
+			osc_atom_u_clear(a);
 		}
 		osc_array_free(ar);
 	}
diff --git a/osc_atom_u.c b/osc_atom_u.c
index f9f2412..32ee1f5 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -52,40 +52,28 @@ void osc_atom_u_free(t_osc_atom_u *a)
 	if(!a){
 		return;
 	}
-	if(a->typetag == 's'){
-		if(a->w.s){
-			osc_mem_free(a->w.s);
-		}
-	}else if(a->typetag == OSC_BUNDLE_TYPETAG){
-		//if(a->alloc){ // should always be true
-		//osc_mem_free(osc_bundle_s_getPtr(a->w.bndl));
-			osc_bundle_u_free(a->w.bndl);
-			//}
-    }
-    else if(a->typetag == 'b'){
-        if(a->w.s){
-            osc_mem_free(a->w.b);
-        }
-    }
+	osc_atom_u_clear(a);
 	osc_mem_free(a);
 }
 
 void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 {
-	if(!src){
+	if(!src || *dest == src){
 		return;
 	}
 	t_osc_atom_u *aa = *dest;
 	if(!aa){
-		aa = osc_mem_alloc(sizeof(t_osc_atom_u));
+		aa = osc_atom_u_alloc();
+	}else{
+		osc_atom_u_clear(aa);
 	}
-	aa->next = aa->prev = NULL;
 	aa->typetag = src->typetag;
-	aa->alloc = src->alloc;
+	aa->alloc = 0;
 	switch(aa->typetag){
         case 's':
             aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
             strcpy(aa->w.s, src->w.s);
+            aa->alloc = 1;
         break;
         case OSC_BUNDLE_TYPETAG:
             aa->w.bndl = NULL;
@@ -95,8 +83,10 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
     {
         int32_t len = ntoh32(*((int32_t *)(src->w.b)));
         int32_t size = osc_util_getPaddingForNBytes(len);
-        aa->w.s = osc_mem_alloc(size + 4);
+        aa->w.b = osc_mem_alloc(size + 4);
+        memset(aa->w.b, '\0', size + 4);
         memcpy(aa->w.b, src->w.b, len + 4);
+        aa->alloc = 1;
     }
         break;
         default:
@@ -134,7 +124,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
@@ -1121,6 +1111,7 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 			a->w.s = NULL;
 		}
 	}else{
+		osc_atom_u_clear(a);
 		if(v){
 			a->w.s = osc_mem_alloc(strlen(v) + 1);
 			strcpy(a->w.s, v);
@@ -1207,6 +1198,12 @@ void osc_atom_u_setBndl_s(t_osc_atom_u *a, long len, char *ptr)
 
 void osc_atom_u_setBndl_u(t_osc_atom_u *a, t_osc_bndl_u *b)
 {
+	if(!a){
+		return;
+	}
+	if(a->typetag != OSC_BUNDLE_TYPETAG || a->w.bndl != b){
+		osc_atom_u_clear(a);
+	}
 	a->w.bndl = b;
 	a->typetag = OSC_BUNDLE_TYPETAG;
 }
@@ -1237,6 +1234,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	memcpy(copy, blob, l + 4);
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
diff --git a/osc_expr.c b/osc_expr.c
index a65e306..35a811c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5876,7 +5876,8 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				if(!b){
 					return 1;
 				}
-				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
+				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), b);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}else{
 				char *blob = osc_mem_alloc(n + 4);
 				for(int i = 0; i < n; i++){
@@ -5885,6 +5886,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				*((int32_t *)blob) = hton32(n);
 				*out = osc_atom_array_u_alloc(1);
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), blob);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}
 		}else{
 			int n = osc_atom_array_u_getLen(*argv);
@@ -6021,6 +6023,7 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
 	osc_atom_u_setBlobPtr(dest, blob);
+	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
diff --git a/osc_legacy_parser.y b/osc_legacy_parser.y
index 18f94fa..9081de3 100644
--- a/osc_legacy_parser.y
+++ b/osc_legacy_parser.y
@@ -199,7 +199,7 @@ arglist:
 		PP("add STRING to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
   	}
 	| OSCADDRESS {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -207,7 +207,7 @@ arglist:
 		PP("add OSCADDRESS to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
 	}
 	| OSCFLOAT {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -280,11 +280,11 @@ arglist:
 	  }
 	| arglist STRING {
 		PP("add STRING to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCADDRESS {
 		PP("add OSCADDRESS to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCFLOAT {
 		PP("add OSCFLOAT to MSG %p := %f\n", *msg, $2);
diff --git a/osc_parser.y b/osc_parser.y
index 78e80de..23a62a1 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -297,7 +297,7 @@ arglist:
 		PP("add STRING to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
   	}
 	| OSCADDRESS {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -305,7 +305,7 @@ arglist:
 		PP("add OSCADDRESS to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
 	}
 	| OSCFLOAT {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -378,11 +378,11 @@ arglist:
 	  }
 	| arglist STRING {
 		PP("add STRING to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCADDRESS {
 		PP("add OSCADDRESS to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCFLOAT {
 		PP("add OSCFLOAT to MSG %p := %f\n", *msg, $2);
-- 
2.43.0


From abc3740b6575ea4e5267ef8ef930c2502c04cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 010/169] fix: room for the separator and terminator when
 joining values as text

---
 osc_atom_array_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index 676125b..67d0031 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -157,9 +157,9 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 	int i;
 	for(i = 0; i < arlen; i++){
 		int n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i));
-		if((buflen - (ptr - *out)) < n){
+		if((buflen - (ptr - *out)) < n + seplen + 1){
 			long offset = ptr - *out;
-			int nbytes = n * (arlen - i) + 1; // assume the rest of the atoms are the same size
+			int nbytes = (n + seplen) * (arlen - i) + 1; // assume the rest of the atoms are the same size
 			char *tmp = osc_mem_resize(*out, buflen + nbytes);
 			if(tmp){
 				*out = tmp;
-- 
2.43.0


From 0f1209fdd63782ef0855fe8a5f801f2969f8da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 011/169] fix: deep-copying onto an existing message releases
 what it held

---
 osc_message_u.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..2589016 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -105,13 +105,15 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 	if(!src){
 		return OSC_ERR_NULLPTR;
 	}
+	if(*dest == src){
+		return OSC_ERR_NONE;
+	}
 	if(!(*dest)){
 		*dest = osc_message_u_alloc();
 	}
+	osc_message_u_clearArgs(*dest);
+	osc_message_u_setAddress(*dest, NULL);
 	(*dest)->size = src->size;
-	(*dest)->argc = 0;
-	(*dest)->arghead = NULL;
-	(*dest)->argtail = NULL;
 	if(src->address){
 		char *address = NULL;
 		osc_util_strdup(&address, src->address);
-- 
2.43.0


From 5881195667c4f89939cec7386d976618c4d185fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 012/169] fix: taking away a message's address releases it

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 2589016..b462bcc 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -173,6 +173,9 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		return OSC_ERR_INVAL;
 	}
 	if(!address){
+		if(m->address){
+			osc_mem_free(m->address);
+		}
 		m->address = NULL;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From e48fe3a5a533e6fda0f0b48cea910fec3b66b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 013/169] fix: an argument index or insert position before the
 first argument is handled

---
 osc_message_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index b462bcc..c58e153 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -220,7 +220,7 @@ t_osc_atom_u *osc_message_u_getArg(t_osc_msg_u *m, int n)
 		return NULL;
 	}
 	int nn = osc_message_u_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return NULL;
 	}
 	if(n == 0){
@@ -287,7 +287,7 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 		m->argtail = a;
 		goto out;
 	}
-	if(pos == 0){
+	if(pos <= 0){
 		a->next = m->arghead;
 		if(m->arghead){
 			m->arghead->prev = a;
-- 
2.43.0


From 5710f739a6c917a83686f91797b3623e0dcacafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 014/169] fix: an argument inserted at the end ends the list

---
 osc_message_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index c58e153..50f7d03 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -284,6 +284,7 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
-- 
2.43.0


From ec6362d4484ba3947137e99d60d50721847897cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 015/169] fix: prepending or inserting text does not leak a
 copy

---
 osc_message_u.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 50f7d03..8a61568 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -601,10 +601,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -770,10 +767,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From 6c226355a2b7cc0f18b6e5c107d0713ff8c9b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 016/169] fix: lookups, replacement and removal by address skip
 messages that have no address

---
 osc_bundle_u.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..6c0eb64 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -228,6 +228,9 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 		}
 		t_osc_msg_u *current_message = osc_bndl_it_u_next(it);
 		int po, ao;
+		if(!osc_message_u_getAddress(current_message)){
+			continue;
+		}
 		int r = osc_match(address, osc_message_u_getAddress(current_message), &po, &ao);
 		if(fullmatch){
 			if(r != (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE)){
@@ -276,7 +279,8 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
             t_osc_msg_u *m = bndl->msghead;
             while(m){
                 t_osc_msg_u *next = m->next;
-                if(!strcmp(address, osc_message_u_getAddress(m))){
+                const char * const messageaddr = osc_message_u_getAddress(m);
+                if(messageaddr && !strcmp(address, messageaddr)){
                     // later maybe try to maintain memmory location if the value is a bundle?
                     // in that case we might not clear first, but copy the new value into the bundle at this message
                     t_osc_msg_u * next = m->next;
@@ -419,10 +423,10 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            const char * const messageaddr = osc_message_u_getAddress(m);
+            if(messageaddr && !strcmp(address, messageaddr)){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
-- 
2.43.0


From 901398f97c5ca58e47458f509a793136193a55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 017/169] fix: taking a message out of a bundle updates its
 message count

---
 osc_bundle_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 6c0eb64..8c587d2 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -266,7 +266,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -414,6 +413,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From ecf74b4375067b23291d98422210ad8ab2e7e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 018/169] fix: adding a list of messages links them and keeps
 what the bundle holds

---
 osc_bundle_u.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 8c587d2..04a3a42 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -383,17 +383,12 @@ t_osc_err osc_bundle_u_addMsgList(t_osc_bndl_u *bndl, t_osc_msg_u *msgs)
 	if(!bndl){
 		return OSC_ERR_NOBUNDLE;
 	}
-	int n = 0;
-	t_osc_msg_u *last = msgs;
-	bndl->msghead = msgs;
 	while(msgs){
-		n++;
-		last = msgs;
-		msgs = osc_message_u_next(msgs);
+		t_osc_msg_u *next = osc_message_u_next(msgs);
+		osc_bundle_u_addMsg(bndl, msgs);
+		msgs = next;
 	}
-	bndl->msgcount = n;
-	bndl->msgtail = last;
-	return 0;
+	return OSC_ERR_NONE;
 }
 
 t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
-- 
2.43.0


From e5b436a91183848c05b5da57d2d34890d862814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 019/169] fix: a new empty encoded bundle has room for its
 whole header

---
 osc_bundle_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..cbbf130 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -54,7 +54,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -801,7 +801,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
-		osc_bundle_s_setBundleID(*bndl_out);
+		memcpy(*bndl_out, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From 7916ee21a8731aff49db4e908498a307231e8256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 020/169] fix: freshly written encoded headers have a zero
 timetag

---
 osc_bundle_s.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index cbbf130..455d2df 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -339,7 +339,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		}
 		*alloc = 1;
 	}
-	osc_bundle_s_setBundleID(*bndl);
+	memcpy(*bndl, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 	*((int32_t *)((*bndl) + OSC_HEADER_SIZE)) = hton32(len);
 	memcpy((*bndl) + OSC_HEADER_SIZE + 4, msg, len);
 	return OSC_ERR_NONE;
@@ -499,7 +499,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
@@ -699,7 +699,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
-		osc_bundle_s_setBundleID(bndl_out);
+		memcpy(bndl_out, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
 	}
@@ -756,7 +756,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
-		osc_bundle_s_setBundleID(*bndl_out);
+		memcpy(*bndl_out, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From a3171bfc19702560edf6572a977f3a13509d7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 021/169] fix: flattening does not use an argument after
 freeing it

---
 osc_bundle_u.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 04a3a42..35b1c01 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -448,9 +448,9 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		t_osc_msg_u *mcopy = NULL;
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
-			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
-			while(osc_msg_it_u_hasNext(mit)){
-				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+			t_osc_atom_u *next = NULL;
+			for(t_osc_atom_u *a = mcopy->arghead; a; a = next){
+				next = a->next;
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
@@ -487,7 +487,6 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					osc_atom_u_free(a);
 				}
 			}
-			osc_msg_it_u_destroy(mit);
 		}
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
-- 
2.43.0


From 12caae775bbee8c59420a3e034d9919f118b8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 022/169] fix: exploding a message without address keeps it

---
 osc_message_u.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 8a61568..0ce8177 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -850,6 +850,10 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 	}
 	char *s = sep && strlen(sep) > 0 ? sep : "/";
 	char *a = osc_message_u_getAddress(msg);
+	if(!a){
+		osc_bundle_u_addMsg(dest, msg);
+		return OSC_ERR_NONE;
+	}
 	int alen = strlen(a);
 	int i = 0;
 	if(a[i] == *s){
-- 
2.43.0


From 49728a6fab677887040232d93a096f409748f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 023/169] fix: exploding at a separator other than / ends

---
 osc_message_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 0ce8177..b61700e 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -912,7 +912,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, (alen - i));
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
@@ -947,7 +947,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, (alen - i));
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
-- 
2.43.0


From e8f86b456263d506bf7be070c0f54f12a2245868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 024/169] fix: exceeding the backtrack limit reports no matched
 lengths

---
 osc_match.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_match.c b/osc_match.c
index 4b35498..5aaf2d4 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -86,7 +86,7 @@ static void osc_match_printState(const char *pattern, const char *address, int p
 #define OSC_MATCH_PUSH(__p, __a){					\
 		sp++;							\
 		if((sp - stack) >= OSC_MATCH_BACKTRACK_LIMIT){		\
-			return OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED; \
+			OSC_MATCH_RETURN_FAILURE(OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED); \
 		}							\
 		sp->p = __p;						\
 		sp->a = __a;						\
@@ -123,7 +123,7 @@ static void osc_match_printState(const char *pattern, const char *address, int p
 #define OSC_MATCH_PUSH(__p, __a){					\
 		sp++;							\
 		if((sp - stack) >= OSC_MATCH_BACKTRACK_LIMIT){		\
-			return OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED; \
+			OSC_MATCH_RETURN_FAILURE(OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED); \
 		}							\
 		sp->p = __p;						\
 		sp->a = __a;						\
-- 
2.43.0


From 546a9723eb7c79530ab0befb1d549345f553aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 025/169] fix: an empty alternative in a pattern can match at
 the end of an address part

---
 osc_match.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/osc_match.c b/osc_match.c
index 5aaf2d4..89ad905 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -28,6 +28,7 @@
 #define OSC_MATCH_RANGE_CAN_BE_NEGATIVE
 
 static int osc_match_range(const char *pattern, const char *address);
+static int osc_match_emptyAlternative(const char *pattern);
 
 #define OSC_MATCH_RANGE_NOMATCH 1
 
@@ -185,6 +186,9 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 				OSC_MATCH_RETURN_SUCCESS((OSC_MATCH_PATTERN_COMPLETE | OSC_MATCH_ADDRESS_COMPLETE));
 			}else if(p == '/'){
 				OSC_MATCH_RETURN_SUCCESS(OSC_MATCH_ADDRESS_COMPLETE);
+			}else if(p == '{' && osc_match_emptyAlternative(pattern + sp->p)){
+				sp->p += osc_match_emptyAlternative(pattern + sp->p);
+				continue;
 			}else{
 				OSC_MATCH_POP();
 				continue;
@@ -205,6 +209,9 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					sp->p++;
 				}
 				continue;
+			}else if(p == '{' && osc_match_emptyAlternative(pattern + sp->p)){
+				sp->p += osc_match_emptyAlternative(pattern + sp->p);
+				continue;
 			}else{
 				OSC_MATCH_POP();
 				continue;
@@ -321,7 +328,11 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					while(address[aa] != '/' && address[aa] != '\0'){
 						aa++;
 					}
-					aa--;
+					if(pattern[pp] != '{'){
+						// only a list with an empty alternative can
+						// match nothing at the end of the address part
+						aa--;
+					}
 					while(aa != here){
 						OSC_MATCH_PUSH(pp, aa);
 						aa--;
@@ -391,3 +402,23 @@ static inline int osc_match_range(const char *pattern, const char *address)
 	}
 	return matched;
 }
+
+// if the list of alternatives at the beginning of pattern contains the empty string, 
+// return the length of the list including its braces, otherwise return 0
+static int osc_match_emptyAlternative(const char *pattern)
+{
+	int i = 1, empty = 0;
+	while(pattern[i] != '}'){
+		if(pattern[i] == '/' || pattern[i] == '\0'){
+			return 0;
+		}
+		if(pattern[i] == ',' && pattern[i - 1] == ((i == 1) ? '{' : ',')){
+			empty = 1;
+		}
+		i++;
+	}
+	if(pattern[i - 1] == ',' || i == 1){
+		empty = 1;
+	}
+	return empty ? i + 1 : 0;
+}
-- 
2.43.0


From 8b9ee0627a567f8acc51b6b7d05a516468bbee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 026/169] fix: a ] at the start of a character set is an
 ordinary character

---
 osc_match.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_match.c b/osc_match.c
index 89ad905..e21cd21 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -254,6 +254,9 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					// if the first char inside the opening square bracket is 
 					// a closing square bracket, it's treated as a normal char,
 					// so skip over it
+					if(pattern[sp->p + 1] == '!'){
+						sp->p++;
+					}
 					if(pattern[sp->p + 1] == ']'){
 						sp->p += 2;
 					}
@@ -367,12 +370,8 @@ static inline int osc_match_range(const char *pattern, const char *address)
 
 	// we're on the first character inside the square brackets
 	// if it's a - or a ], it gets treated as a normal character
-	if(*p == ']'){
-		if(*p == *address){
-			return val;
-		}
-	}
-	while(*p != ']'){
+	const char *first = p;
+	while(*p != ']' || p == first){
 		char c = *p++, c2;
 		if(c == '\0' || c == '/'){
 			return OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET;
-- 
2.43.0


From 26dfc714fd668d75b8806bc2b58a787e95b53339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 027/169] fix: a malformed pattern or address is not a partial
 match

---
 osc_bundle_s.c | 6 +++---
 osc_bundle_u.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 455d2df..c1064fe 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -190,7 +190,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + size;
 				continue;
 			}
@@ -225,7 +225,7 @@ t_osc_err osc_bundle_s_addressExists(long len, char *buf, char *address, int ful
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + ntoh32(*((int32_t *)msg));
 				continue;
 			}
@@ -256,7 +256,7 @@ t_osc_msg_ar_s *osc_bundle_s_lookupAddress(long len, char *buf, const char *addr
 				goto cont;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				goto cont;
 			}
 		}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 35b1c01..fd6ee3c 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -148,7 +148,7 @@ t_osc_err osc_bundle_u_addressExists(t_osc_bndl_u *bndl, char *address, int full
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
@@ -176,7 +176,7 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }else{
-            if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+            if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
                 continue;
             }
         }
@@ -237,7 +237,7 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
-- 
2.43.0


From c6bcc88c10632f785925717d63838716aab7bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 028/169] fix: an address is bound when any matching message
 has arguments

---
 osc_bundle_s.c | 2 +-
 osc_bundle_u.c | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index c1064fe..46a1733 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -196,7 +196,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index fd6ee3c..281d4fc 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -180,8 +180,10 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }
-        *res = (osc_message_u_getArgCount(m) > 0);
-        break;
+        if(osc_message_u_getArgCount(m) > 0){
+            *res = 1;
+            break;
+        }
     }
     osc_bndl_it_u_destroy(it);
     return OSC_ERR_NONE;
-- 
2.43.0


From 2cb0b37f3126f0164608109b436591d64501b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 029/169] fix: a query result whose stripped address would be
 invalid keeps its message

---
 osc_query.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_query.c b/osc_query.c
index c149d31..6970e67 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -117,7 +117,10 @@ int osc_query_select_impl(int nselectors,
 				if(strip_matched_portion_of_address){
 					char buf[osc_message_s_getSize(msg) + 4];
 					char *address = osc_message_s_getAddress(msg);
-					osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
+					if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+						// what remains is not a valid address, so pass the message on as it is
+						memcpy(buf, osc_message_s_getPtr(msg), osc_message_s_getSize(msg) + 4);
+					}
 					char msg_s[osc_message_s_getStructSize()];
 					osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 					//osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-- 
2.43.0


From 073fa40d2b4052a4bd7db792661ffcf2ba1933be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 030/169] fix: dispatch strips the part of the message's
 address that matched, not as many characters as the selector has

---
 osc_dispatch.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 21ad226..1867981 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,7 +112,10 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - ao, address + ao);
+			if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+				// what remains is not a valid address, so pass the message on as it is
+				memcpy(buf, osc_message_s_getPtr(msg), osc_message_s_getSize(msg) + 4);
+			}
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-- 
2.43.0


From 9421473b3fe47e295387fee3dd2b53c54f4b8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 031/169] fix: freeing a dispatch table frees the table itself

---
 osc_vtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index 050333b..f71e848 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -65,6 +65,7 @@ void osc_vtable_free(t_osc_vtable *vtab){
 	if(vtab->hashtab){
 		osc_hashtab_destroy(vtab->hashtab);
 	}
+	osc_mem_free(vtab);
 }
 
 void osc_vtable_setDelegationMethod(t_osc_vtable *vtab,
-- 
2.43.0


From b85fbb7c7b3720b3207d8a275cdda28e1f3cbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 032/169] fix: growing a dispatch table keeps its selectors
 resolvable

---
 osc_vtable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index f71e848..d7faf10 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -86,6 +86,12 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 		if(!(vtab->entries)){
 			return OSC_ERR_OUTOFMEM;
 		}
+		// the entries may have moved, so look them up where they are now
+		int i;
+		for(i = 0; i < vtab->num_entries; i++){
+			t_osc_vtable_entry *e = &(vtab->entries[i]);
+			osc_hashtab_store(vtab->hashtab, strlen(e->selector), e->selector, e);
+		}
 	}
 	t_osc_vtable_entry *entry = osc_vtable_getEntryBySelector(vtab, selector);
 	if(entry){
-- 
2.43.0


From ac681f3e33c368918412678e8a72ad775566d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 033/169] fix: renaming a dispatch table entry drops the old
 selector and keeps its own copy of the new one

---
 osc_vtable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index d7faf10..d4a00a3 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -186,12 +186,12 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	}
 	int oldlen = strlen(old_selector);
 	int newlen = strlen(new_selector);
+	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
 	if(newlen > oldlen){
 		e->selector = osc_mem_resize(e->selector, newlen + 1);
 	}
 	strncpy(e->selector, new_selector, newlen + 1);
-	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)e);
+	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)e);
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From bb94ecce7b6c1fb46fefbcb68a8c285c944e7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 034/169] fix: dispatching without a delegation method drops
 what is unmatched

---
 osc_vtable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index d4a00a3..66ae6d0 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -221,7 +221,9 @@ int osc_vtable_call(t_osc_vtable *vtab,
 }
 
 int osc_vtable_delegate(t_osc_vtable *vtab, long bndllen, char *bndl, t_osc_bndl_s *unmatched){
-	vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	if(vtab->delegation_method){
+		vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	}
 	return 0;
 }
 
-- 
2.43.0


From a6fa6d4459502c64b77df9586b3a8215a5e2226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 035/169] fix: subtracting a later timetag borrows from its
 seconds

---
 osc_timetag.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index ba4e9f3..48d58b3 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -77,11 +77,10 @@ t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
 		}
 	}else{
 		r.sec = t2_ntp.sec - t1_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-		}else{
-			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		if(t1_ntp.frac_sec > t2_ntp.frac_sec){
+			r.sec--;
 		}
+		r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
 	}
 
 	return *((t_osc_timetag *)(&r));
-- 
2.43.0


From f6786138a884cca00ee5ea9e419f4458275db7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 036/169] fix: dates are computed with the leap years since
 1900

---
 osc_timetag.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 48d58b3..341b08b 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -321,14 +321,13 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 0; secs >= SEC_PER_YEAR; year++){ //determine # years elapse since epoch
+	//1/1/1900, 00:00 is ntp epoch
+	for(year = 1900; secs >= SEC_PER_YEAR + (osc_timetag_isleap(year) ? SEC_PER_DAY : 0); year++){ //determine # years elapse since epoch
 		secs -= SEC_PER_YEAR;
 		if(osc_timetag_isleap(year)){
 			secs -= SEC_PER_DAY;
 		}
 	}
-	//year+=1970;  //1/1/1970, 00:00 is epoch
-	year += 1900;  //1/1/1900, 00:00 is ntp epoch
 	//for (yrcount=1970;yrcount<year;yrcount++) //scroll from 1970 to last year to find leap yrs.
 	/*
 	for(yrcount = 1900; yrcount < year; yrcount++){
-- 
2.43.0


From 38536d3cb7b7e59314465751fa99120e07f6933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 037/169] fix: the fraction of a date never carries into its
 seconds and its length is announced exactly

---
 osc_timetag.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 341b08b..3fc14f3 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -308,7 +308,7 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	char s1[20];
 	if(!buf){
-		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
+		n = 0;
 	}
 	uint32_t secs = osc_timetag_ntp_getSeconds(timetag);
 	unsigned short int year, month, day, hour, minute, yrcount, leap = 0;
@@ -421,14 +421,11 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 		s1[i++] = '\0';
 	}
 
-	double d = osc_timetag_ntp_to_float(timetag);
-	double dm1 = fmod(d, 1.0);
-	//int l = osc_strfmt_float64(NULL, 0, dm1);
-	int l = snprintf(NULL, 0, "%05fZ", dm1);
-	char s2[l + 1];
-	snprintf(s2, l, "%05fZ", dm1);
-	//osc_strfmt_float64(s2, l + 1, dm1);
-	return snprintf(buf, n, "%s.%sZ", s1, s2+2);
+	uint32_t usecs = (uint32_t)(((uint64_t)osc_timetag_ntp_getFraction(timetag) * 1000000 + 0x80000000UL) >> 32);
+	if(usecs > 999999){
+		usecs = 999999; // the seconds have been printed already, so don't round up to the next one
+	}
+	return snprintf(buf, n, "%s.%06uZ", s1, usecs);
 
 	/*
 	time_t i;
-- 
2.43.0


From f124139c8ead1ef8dd1175ee1ed0f3921238b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 038/169] fix: the zone offset of a date is taken into account

---
 osc_timetag.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 3fc14f3..321bc79 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -459,7 +459,7 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	struct tm t;
 	memset(&t, '\0', sizeof(struct tm));
-	double fsec;
+	double fsec = 0.;
 	//char s1[];
 	//memset(s1, '\0', sizeof(s1));
     
@@ -476,7 +476,22 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 	//strncat(s1, s, OSC_TIMETAG_MAX_STRING_LENGTH - 1);
 
 	// parse the time
-	strptime(s, "%Y-%m-%dT%H:%M:%S", &t);
+	char *rest = strptime(s, "%Y-%m-%dT%H:%M:%S", &t);
+
+	// anything after the seconds other than the fraction can only be Z or an offset from UTC
+	char sign = 0;
+	int zone_hour = 0, zone_min = 0;
+	if(rest){
+		if(*rest == '.'){
+			rest++;
+			while(*rest >= '0' && *rest <= '9'){
+				rest++;
+			}
+		}
+		if((*rest == '+' || *rest == '-') && sscanf(rest + 1, "%2d:%2d", &zone_hour, &zone_min) == 2){
+			sign = *rest;
+		}
+	}
 	//printf("year: %d, month: %d, mday: %d, yday: %d, hour: %d, min: %d, sec: %d\n", t.tm_year, t.tm_mon, t.tm_mday, t.tm_yday, t.tm_hour, t.tm_min, t.tm_sec);
 
 	const DWORD SEC_PER_YEAR = 31536000;
@@ -501,6 +516,11 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 	sec += (t.tm_hour * SEC_PER_HR);
 	sec += (t.tm_min * SEC_PER_MIN);
 	sec += t.tm_sec;
+	if(sign == '+'){
+		sec -= zone_hour * SEC_PER_HR + zone_min * SEC_PER_MIN;
+	}else if(sign == '-'){
+		sec += zone_hour * SEC_PER_HR + zone_min * SEC_PER_MIN;
+	}
 	timetag->sec = sec;
 
 	//timetag->sec = (t.tm_year * 3.15569e7) + (t.tm_yday * 86400) + (t.tm_hour * 3600) + (t.tm_min * 60) + t.tm_sec;
-- 
2.43.0


From 4d6be0c04328c07096a1b408b66eff17aaeda02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 039/169] fix: the fraction of the current time does not wrap
 at the end of a second

---
 osc_timetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 321bc79..f92e25d 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -628,7 +628,7 @@ t_osc_timetag osc_timetag_now(void)
 		//0 + //(uint32_t)(60 * tz.tz_minuteswest) +
 		//(uint32_t)(tz.tz_dsttime == 1 ? 3600 : 0);
     
-	n.frac_sec = (uint32_t)(tv.tv_usec * 4295); // 2^32-1 / 1.0e6
+	n.frac_sec = (uint32_t)(((uint64_t)tv.tv_usec << 32) / 1000000);
 
 	return *((t_osc_timetag *)(&n));
 #elif OSC_TIMETAG_FORMAT == OSC_TIMETAG_PTP
-- 
2.43.0


From 7711574597700acbddfb2bc0b07c0c57f04ca030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 040/169] fix: a negative index names no member of an array

---
 osc_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..3b74547 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -72,7 +72,7 @@ void *osc_array_get(t_osc_array *ar, long idx){
 	if(!ar){
 		return NULL;
 	}
-	if(ar->len <= idx){
+	if(idx < 0 || ar->len <= idx){
 		return NULL;
 	}
 	return ar->ar + (idx * ar->membersize);
-- 
2.43.0


From 3845a7e78235ba213d1fdc59509fed47f75e5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 041/169] fix: copying into an array makes room for what it
 does not have yet

---
 osc_array.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 3b74547..3be8079 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -105,14 +105,13 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
 	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
+		if((*dest)->len < destlen){
+			t_osc_err e = osc_array_resize(*dest, destlen);
+			if(e){
+				return e;
 			}
 		}
 	}
-- 
2.43.0


From 7be91ff26249040035ca99eda767dc4a6f8cd47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 042/169] fix: an array can be emptied and empty arrays copied
 and cleared

---
 osc_array.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 3be8079..b6d1d75 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -63,7 +63,7 @@ void osc_array_free(t_osc_array *ar)
 
 void osc_array_clear(t_osc_array *ar)
 {
-	if(ar){
+	if(ar && ar->ar){
 		memset(ar->ar, '\0', ar->len * ar->membersize);
 	}
 }
@@ -92,7 +92,9 @@ t_osc_array *osc_array_copy(t_osc_array *array)
 		return NULL;
 	}
 	t_osc_ar *cp = osc_array_allocWithSize(array->len, array->membersize);
-	memcpy(cp->ar, array->ar, cp->len * cp->membersize);
+	if(cp && cp->ar){
+		memcpy(cp->ar, array->ar, cp->len * cp->membersize);
+	}
 	return cp;
 }
 
@@ -115,7 +117,9 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 			}
 		}
 	}
-	memcpy((*dest)->ar + (offset * srcsize), src->ar, srclen_bytes);
+	if(srclen_bytes > 0){
+		memcpy((*dest)->ar + (offset * srcsize), src->ar, srclen_bytes);
+	}
 	return OSC_ERR_NONE;
 }
 
@@ -124,6 +128,12 @@ t_osc_err osc_array_resize(t_osc_array *array, int newlen)
 	if(!array){
 		return OSC_ERR_INVAL;
 	}
+	if(newlen <= 0){
+		osc_mem_free(array->ar);
+		array->ar = NULL;
+		array->len = 0;
+		return OSC_ERR_NONE;
+	}
 	array->ar = osc_mem_resize(array->ar, newlen * array->membersize);
 	if(array->ar){
 #ifdef OSC_ARRAY_CLEAR_ON_ALLOC
-- 
2.43.0


From 2d83aa115000c21592f10563a7c0e2d36b73cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 043/169] fix: storing under a key that is kept releases the
 unused element

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..71f134e 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From 6ea0cecb40b18a1d5f7abda6940f1c0b7ba9e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 044/169] fix: a large table uses the largest prime there is

---
 osc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index 71f134e..99f4e8d 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -87,7 +87,7 @@ static uint32_t osc_hashtab_getPrime(uint32_t n){
 			return primes[i];
 		}
 	}
-	return primes[i];
+	return primes[i - 1];
 }
 
 static void osc_hashtab_rehash(t_osc_hashtab *ht)
-- 
2.43.0


From a5fba76dce66a15c70922226bb1b16ea373a6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:04 +0000
Subject: [PATCH 045/169] fix: escaping into a buffer that is too short
 terminates inside it

---
 osc_strfmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 952dfc4..d91a7a3 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -177,8 +177,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 		}
 		if(i < n){
 			buf[i] = '\0';
-		}else{
-			buf[i - 1] = '\0';
+		}else if(n > 0){
+			buf[n - 1] = '\0';
 		}
 		return i;
 	}
-- 
2.43.0


From 0f2e2b62fffebf7e29a57850e959405092b6e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:04 +0000
Subject: [PATCH 046/169] fix: quoting a string does not need a copy as large
 as the buffer on the stack

---
 osc_strfmt.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index d91a7a3..f8456f6 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -189,14 +189,20 @@ int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str)
 	if(!str){
 		return 0;
 	}
-	if(!buf){
-		return osc_strfmt_stringWithQuotedMeta(buf, n, str) + 2;
-	}else{
-		char tmp[n];
-		int nn = osc_strfmt_stringWithQuotedMeta(tmp, n, str);
-		osc_strfmt_quotedString(buf, n, tmp);
-		return nn + 2;
+	int nn = osc_strfmt_stringWithQuotedMeta(NULL, 0, str) + 2;
+	if(buf && n > 0){
+		if(n > 1){
+			buf[0] = '"';
+			osc_strfmt_stringWithQuotedMeta(buf + 1, n - 1, str);
+		}
+		if(n > nn){
+			buf[nn - 1] = '"';
+			buf[nn] = '\0';
+		}else{
+			buf[n - 1] = '\0';
+		}
 	}
+	return nn;
 }
 
 int osc_strfmt_addQuotes(int len, char *buf, char **out)
-- 
2.43.0


From 1924de5dfeb60ea838791d70cfaf1d4d740dd141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:04 +0000
Subject: [PATCH 047/169] fix: room for the terminator of a quoted string, and
 quotes around an empty one

---
 osc_strfmt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index f8456f6..1f8cdc6 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -214,12 +214,12 @@ int osc_strfmt_addQuotes(int len, char *buf, char **out)
 		*out = osc_mem_alloc(len + 3);
 	}
 	int i = 0;
-	if(buf[0] != '\"'){
+	if(len < 1 || buf[0] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	strncpy((*out) + i, buf, len);
 	i += len;
-	if(buf[len - 1] != '\"'){
+	if(len < 1 || buf[len - 1] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	(*out)[i] = '\0';
@@ -256,7 +256,7 @@ int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **out)
 	}
 	int n = len + 2 + osc_strfmt_countMeta(len, buf);
 	if(!(*out)){
-		*out = osc_mem_alloc(n);
+		*out = osc_mem_alloc(n + 1);
 	}
 	int i = 0;
 	if(1){//buf[0] != '\"'){
-- 
2.43.0


From c3466cb9a485cb7046307383536ff41609458094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:04 +0000
Subject: [PATCH 048/169] fix: printing an empty blob or into a short buffer
 stays in bounds

---
 osc_strfmt.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 1f8cdc6..2458b1e 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -126,20 +126,13 @@ int osc_strfmt_blob(char *buf, size_t n, char *blob)
 {
 	char *ptr = blob + 4;
 	int32_t len = ntoh32(*((int32_t *)blob));
-	int c = 0;
-	if(buf){
-		c = snprintf(buf, n, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(buf + c, n - c, ", %d", *ptr++);
-		}
-		c += snprintf(buf + c, n - c, ")");
-	}else{
-		c = snprintf(NULL, 0, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(NULL, 0, ", %d", *ptr++);
-		}
-		c += snprintf(NULL, 0, ")");
+	int c = snprintf(buf, buf ? n : 0, "blob(");
+	for(int i = 0; i < len; i++){
+		size_t rest = buf && c < n ? n - c : 0;
+		c += snprintf(rest ? buf + c : NULL, rest, i ? ", %d" : "%d", *ptr++);
 	}
+	size_t rest = buf && c < n ? n - c : 0;
+	c += snprintf(rest ? buf + c : NULL, rest, ")");
 	return c;
 }
 
-- 
2.43.0


From c0d7c6d26205e2601fd4fbe0ab94c2454b342329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 049/169] fix: printing a message or bundle into a short buffer
 stays inside it

---
 osc_bundle_s.c  |  9 +++++----
 osc_bundle_u.c  | 13 +++++++------
 osc_message_s.c | 17 +++++++++--------
 osc_message_u.c | 13 +++++++------
 osc_strfmt.h    |  3 +++
 5 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 46a1733..796df4c 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -26,6 +26,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_match.h"
 #include "osc_timetag.h"
 
@@ -650,9 +651,9 @@ long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int ninde
 	}else{
 		while(osc_bndl_it_s_hasNext(it)){
 			t_osc_msg_s *m = osc_bndl_it_s_next(it);
-			offset += osc_message_s_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_s_nformat(buf + offset, OSC_STRFMT_REST(n, offset), m, nindent);
 			if(osc_bndl_it_s_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), ",\n");
 			}
 		}
 	}
@@ -677,8 +678,8 @@ long osc_bundle_s_nformatNestedBndl(char *buf, long n, long bndllen, char *bndl,
 		offset += osc_bundle_s_nformat(NULL, 0, bndllen, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += osc_bundle_s_nformat(buf + offset, n - offset, bndllen, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += osc_bundle_s_nformat(buf + offset, OSC_STRFMT_REST(n, offset), bndllen, bndl, nindent);
+		offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "\n%s}", tabs);
 	}
 	return offset;
 }
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 281d4fc..4c76508 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -26,6 +26,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_byteorder.h"
 #include "osc_match.h"
 #include "osc_message_u.h"
@@ -671,11 +672,11 @@ long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 			}
 		}
 	}else{
-		while(osc_bndl_it_u_hasNext(it) && offset < n){
+		while(osc_bndl_it_u_hasNext(it)){
 			t_osc_msg_u *m = osc_bndl_it_u_next(it);
-			offset += osc_message_u_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_u_nformat(buf + offset, OSC_STRFMT_REST(n, offset), m, nindent);
 			if(osc_bndl_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), ",\n");
 			}
 		}
 	}
@@ -700,9 +701,9 @@ long osc_bundle_u_nformatNestedBndl(char *buf, long n, t_osc_bndl_u *bndl, int n
 		offset += osc_bundle_u_nformat(NULL, 0, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += snprintf(buf + offset, n - offset, "{\n");
-		offset += osc_bundle_u_nformat(buf + offset, n - offset, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "{\n");
+		offset += osc_bundle_u_nformat(buf + offset, OSC_STRFMT_REST(n, offset), bndl, nindent);
+		offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "\n%s}", tabs);
 
 	}
 	return offset;
diff --git a/osc_message_s.c b/osc_message_s.c
index 66ccce8..f38d23a 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -31,6 +31,7 @@
 #include "osc_message_u.h"
 #include "osc_array.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_util.h"
 
 t_osc_msg_s *osc_message_s_alloc(void)
@@ -342,29 +343,29 @@ long osc_message_s_nformat(char *buf, long n, t_osc_msg_s *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "%s%s : [", tabs, osc_message_s_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "%s%s : ", tabs, osc_message_s_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_s_getAddress(m));
+			offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "%s%s", tabs, osc_message_s_getAddress(m));
 		}
 		while(osc_msg_it_s_hasNext(it)){
 			//offset += snprintf(NULL, 0, " ");
 			t_osc_atom_s *a = osc_msg_it_s_next(it);
-			offset += osc_atom_s_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_s_nformat(buf + offset, OSC_STRFMT_REST(n, offset), a, nindent);
 			if(osc_msg_it_s_hasNext(it)){
 				//if(osc_atom_s_getTypetag(a) == OSC_BUNDLE_TYPETAG){
-				//offset += snprintf(buf + offset, n - offset, ",\n");
+				//offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), ",\n");
 				//}else{
-					offset += snprintf(buf + offset, n - offset, ", ");
+					offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), ", ");
 					//}
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "]");
 		}
-		//offset += snprintf(buf + offset, n - offset, "\n");
+		//offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "\n");
 	}
 	osc_msg_it_s_destroy(it);
 	return offset;
diff --git a/osc_message_u.c b/osc_message_u.c
index b61700e..7f40d26 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -31,6 +31,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_atom_array_u.h"
 #include "osc_message_iterator_u.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_byteorder.h"
 #include "osc_util.h"
 
@@ -1099,22 +1100,22 @@ long osc_message_u_nformat(char *buf, long n, t_osc_msg_u *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "%s%s : [", tabs, osc_message_u_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "%s%s : ", tabs, osc_message_u_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_u_getAddress(m));
+			offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "%s%s", tabs, osc_message_u_getAddress(m));
 		}
 		while(osc_msg_it_u_hasNext(it)){
 			t_osc_atom_u *a = osc_msg_it_u_next(it);
-			offset += osc_atom_u_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_u_nformat(buf + offset, OSC_STRFMT_REST(n, offset), a, nindent);
 			if(osc_msg_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ", ");
+				offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), ", ");
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(buf + offset, OSC_STRFMT_REST(n, offset), "]");
 		}
 	}
 	osc_msg_it_u_destroy(it);
diff --git a/osc_strfmt.h b/osc_strfmt.h
index 37fe9b2..6577610 100644
--- a/osc_strfmt.h
+++ b/osc_strfmt.h
@@ -41,6 +41,9 @@ extern "C" {
 #define OSC_DEPRECATED(decl, msg) decl __attribute__((deprecated(msg)));
 #endif
 
+// what is left of a buffer of n bytes after offset of them
+#define OSC_STRFMT_REST(n, offset) ((n) > (offset) ? (n) - (offset) : 0)
+
 #define OSC_STRFMT_META_CHARS ((char []){'"', '\\'})
 
 int osc_strfmt_int8(char *buf, size_t n, int8_t i);
-- 
2.43.0


From 97c1fe111608858ca437c35f1f70ccca21720f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 050/169] fix: the text of an empty bundle is terminated

---
 osc_bundle_s.c | 3 +++
 osc_bundle_u.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 796df4c..2f051c8 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -627,6 +627,9 @@ char *osc_bundle_s_pformat(t_osc_bundle_s *bndl)
 
 long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl){
 		return 0;
 	}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 4c76508..f43c809 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -658,6 +658,9 @@ char *osc_bundle_u_format(t_osc_bndl_u *bndl)
 
 long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl || osc_bundle_u_getMsgCount(bndl) == 0){
 		return 0;
 	}
-- 
2.43.0


From a64a3aa38b351b77e96aa68d9e082abba9963083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 051/169] fix: a value's text is terminated inside a short
 buffer and when it has no text

---
 osc_atom_s.c | 5 ++++-
 osc_atom_u.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index b5c150f..e6b003c 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -499,9 +499,12 @@ int osc_atom_s_getString(t_osc_atom_s *a, size_t n, char **out)
 	if(!(*out)){
 		return 0;
 	}
+	if(nn > 0){
+		**out = '\0';
+	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->data, nn);
+		snprintf(*out, nn, "%s", a->data);
 		break;
 	case 'i': // signed 32-bit int
 		{
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 32ee1f5..1ee94a9 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -761,9 +761,12 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	if(!(*out)){
 		return 0;
 	}
+	if(nn > 0){
+		**out = '\0';
+	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->w.s, nn);
+		snprintf(*out, nn, "%s", a->w.s);
 		break;
 	case 'i': // signed 32-bit int
 		osc_strfmt_int32(*out, nn, a->w.i);
-- 
2.43.0


From 9464d77a83fc3a9371688ed698f2fe16b92730d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 052/169] fix: a byte above 127 in a bundle's text is an error,
 not its end

---
 osc_scanner.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_scanner.l b/osc_scanner.l
index 78d7a87..78aaea7 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -187,6 +187,6 @@ nil					{
 
 [ \t\n]+
 
-. {return *yytext;}
+. {return (unsigned char)*yytext;}
 
 %%
-- 
2.43.0


From ea34683f34556cabd95e230e4b71299d05743308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 053/169] fix: quoted text ends at its closing quote, escapes
 any character and is not leaked

---
 osc_parser.y  |  1 +
 osc_scanner.l | 50 ++++++++++++++++++++++----------------------------
 2 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/osc_parser.y b/osc_parser.y
index 23a62a1..7448c69 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -121,6 +121,7 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
+	osc_mem_free(buf);
 	/*
 	if(!ret){
 		*bndl = bl->bndl;
diff --git a/osc_scanner.l b/osc_scanner.l
index 78aaea7..d7d10c1 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -34,6 +34,14 @@ int osc_scanner_wrap(yyscan_t scanner){
 	return 1;
 }
 
+static void osc_scanner_appendToBuf(char *text, int len, long *buflen, char **buf)
+{
+	*buf = osc_mem_resize(*buf, *buflen + len + 1);
+	memcpy(*buf + *buflen, text, len);
+	*buflen += len;
+	(*buf)[*buflen] = '\0';
+}
+
 %}
 
 dseq      ([[:digit:]]+)
@@ -70,40 +78,26 @@ quoted_string [^\"\\]
 }
 
 <quote>{quoted_string}+ {
-	if(*buf){
-		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
-		*buflen += yyleng + 1;
-		strcat(*buf, yytext);
-	}else{
-		yylval->atom = osc_atom_u_allocWithString(yytext);
-		return OSCVALUE;
-	}
+	osc_scanner_appendToBuf(yytext, yyleng, buflen, buf);
+}
+
+<quote>\\(.|\n) {
+	osc_scanner_appendToBuf(yytext + 1, 1, buflen, buf);
 }
 
 <quote>\" {
 	BEGIN(0);
-	if(*buf){
-		yylval->atom = osc_atom_u_allocWithString(*buf);
-		*buf = NULL;
-		*buflen = 0;
-		return OSCVALUE;
-	}
+	yylval->atom = osc_atom_u_allocWithString(*buf ? *buf : "");
+	osc_mem_free(*buf);
+	*buf = NULL;
+	*buflen = 0;
+	return OSCVALUE;
 }
 
-<quote>{quoted_string}*\\. {
-	if(*buf){
-		*buf = osc_mem_resize(*buf, *buflen + yyleng);
-		memcpy(*buf + *buflen, yytext, yyleng - 1);
-		*buflen += yyleng - 1;
-		(*buf)[*buflen - 1] = yytext[yyleng - 1];
-		(*buf)[*buflen] = '\0';
-	}else{
-		*buf = osc_mem_alloc(yyleng);
-		memcpy(*buf, yytext, yyleng - 1);
-		*buflen = yyleng - 1;
-		(*buf)[*buflen - 1] = yytext[yyleng - 1];
-		(*buf)[*buflen] = '\0';
-	}
+<quote>\\ |
+<quote><<EOF>> {
+	// unterminated string
+	return '"';
 }
 
 \"\" {
-- 
2.43.0


From f3a71cfef24d91791d41b78dd00eb7b06f633399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 054/169] fix: release what the bundle text parser holds when
 the text has an error

---
 osc_parser.y | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/osc_parser.y b/osc_parser.y
index 7448c69..64c1c73 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -176,6 +176,24 @@ void yyerror (YYLTYPE *yylloc, t_osc_bndl_u **bndl, void *scanner, long *buflen,
 %type <atom>data datum list subbundle 
 %token <atom>OSCADDRESS OSCVALUE 
 
+/* what an error leaves on the stack: lists of atoms or messages */
+%destructor {
+	t_osc_atom_u *a = $$;
+	while(a){
+		t_osc_atom_u *next = a->next;
+		osc_atom_u_free(a);
+		a = next;
+	}
+} <atom>
+%destructor {
+	t_osc_msg_u *m = $$;
+	while(m){
+		t_osc_msg_u *next = m->next;
+		osc_message_u_free(m);
+		m = next;
+	}
+} <message>
+
 %%
 
 bundle: 
-- 
2.43.0


From 66a0ff8f98881e3a7287eb1b288d56ee8c993e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 055/169] fix: a text that does not parse as a whole leaves no
 bundle

---
 osc_parser.y | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_parser.y b/osc_parser.y
index 64c1c73..8f46a20 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -118,7 +118,8 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	osc_scanner_set_out(NULL, scanner);
 	long buflen = 0;
 	char *buf = NULL;
-	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
+	t_osc_bndl_u *b = NULL;
+	int ret = osc_parser_parse(&b, scanner, &buflen, &buf);
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
 	osc_mem_free(buf);
@@ -131,8 +132,11 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	}
 	*/
 	if(ret){
+		// the error can come after a well formed bundle
+		osc_bundle_u_free(b);
 		return OSC_ERR_PARSER;
 	}
+	*bndl = b;
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 71cc5f13e25603cd94e5663ace69861d0af3ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:06 +0000
Subject: [PATCH 056/169] fix: an integer in a bundle's text that does not fit
 32 bits keeps its value

---
 osc_scanner.l | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/osc_scanner.l b/osc_scanner.l
index d7d10c1..b79b26a 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -146,8 +146,20 @@ nil					{
 
 (-?([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
 						char *endp = NULL;
-					        long i = strtol(yytext, &endp, 10);
-						yylval->atom = osc_atom_u_allocWithInt32(i);
+						int64_t i = strtoll(yytext, &endp, 10);
+						if(i >= INT32_MIN && i <= INT32_MAX){
+							yylval->atom = osc_atom_u_allocWithInt32(i);
+						}else{
+							yylval->atom = osc_atom_u_alloc();
+							if(i == INT64_MAX){
+								uint64_t u = strtoull(yytext, &endp, 10);
+								if(u > INT64_MAX){
+									osc_atom_u_setUInt64(yylval->atom, u);
+									return OSCVALUE;
+								}
+							}
+							osc_atom_u_setInt64(yylval->atom, i);
+						}
 						return OSCVALUE;
 					}
 0[xX][[:digit:]abcdefABCDEF]+ 	{
-- 
2.43.0


From 88c985cf5e80972c6763d320705b1c77310ffe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:05 +0000
Subject: [PATCH 057/169] fix: the bundle sanity check stays inside the bundle
 whatever sizes it states

---
 osc_error.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..eee0ee2 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -148,12 +148,15 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 	char *ptr = bundle + OSC_HEADER_SIZE;
 	int cumsize = OSC_HEADER_SIZE;
 	while((ptr - bundle) < len){
+		if(len - cumsize < 4){
+			return OSC_ERR_MSGTOOLARGE;
+		}
 		cumsize += 4; // msg size
 		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
-		if(cumsize > len){
+		if(size < 0 || size > len - cumsize){
 			return OSC_ERR_MSGTOOLARGE;
 		}
+		cumsize += size;
 		int ret;
 		if((ret = osc_error_msgSanityCheck(ptr))){
 			return ret;
-- 
2.43.0


From e02b9c0464c800cc5fd96e1742192b0f26fd0aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 058/169] fix: the sanity check verifies that a message's
 strings and values lie inside it

---
 osc_error.c | 73 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/osc_error.c b/osc_error.c
index eee0ee2..70d57a5 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -28,6 +28,8 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_mem.h"
 #include "osc_bundle_s.h"
 #include "osc_byteorder.h"
+#include "osc_util.h"
+#include "osc_timetag.h"
 
 int osc_error_defaultHandler(void *context, const char * const errorstr)
 {
@@ -172,9 +174,80 @@ t_osc_err osc_error_msgSanityCheck(char *msg)
 	if(size < 4){
 		return OSC_ERR_MSGTOOSMALL;
 	}
+	if(size % 4){
+		return OSC_ERR_MALFORMEDMSG;
+	}
 	if(*(msg + 4) != '/'){
 		return OSC_ERR_MALFORMEDADDRESS;
 	}
+	char *ptr = msg + 4;
+	char *end = ptr + size;
+	if(!memchr(ptr, '\0', end - ptr)){
+		return OSC_ERR_MALFORMEDADDRESS;
+	}
+	ptr += osc_util_getPaddedStringLen(ptr);
+	if(ptr == end){
+		// no type tags, see osc_message_s_wrap()
+		return OSC_ERR_NONE;
+	}
+	char *tt = ptr;
+	if(*tt != ',' || !memchr(tt, '\0', end - tt)){
+		return OSC_ERR_MALFORMEDMSG;
+	}
+	ptr += osc_util_getPaddedStringLen(tt);
+	while(*++tt){
+		int64_t n = -1;
+		switch(*tt){
+		case 's':
+		case 'S':
+			if(memchr(ptr, '\0', end - ptr)){
+				n = osc_util_getPaddedStringLen(ptr);
+			}
+			break;
+		case 'b':
+		case OSC_BUNDLE_TYPETAG:
+			if(end - ptr >= 4){
+				int32_t len = ntoh32(*((uint32_t *)ptr));
+				if(len < 0 || len > end - ptr - 4){
+					break;
+				}
+				n = 4 + (((int64_t)len + 3) & ~3);
+				if(*tt == OSC_BUNDLE_TYPETAG){
+					t_osc_err ret;
+					if((ret = osc_error_bundleSanityCheck(len, ptr + 4))){
+						return ret;
+					}
+				}
+			}
+			break;
+		case OSC_TIMETAG_TYPETAG:
+			n = OSC_TIMETAG_SIZEOF;
+			break;
+		case 'T':
+		case 'F':
+		case 'N':
+			n = 0;
+			break;
+		case 'c':
+		case 'C':
+		case 'u':
+		case 'U':
+		case 'i':
+		case 'I':
+		case 'f':
+			n = 4;
+			break;
+		case 'h':
+		case 'H':
+		case 'd':
+			n = 8;
+			break;
+		}
+		if(n < 0 || n > end - ptr){
+			return OSC_ERR_BADTYPETAG;
+		}
+		ptr += n;
+	}
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 55aad0365644b9ce4a3031ac28e5d9c3b777ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 059/169] fix: the byte checker takes message sizes above 127
 and reports negative or misaligned ones

---
 osc_serial.c | 40 +++++++++++++++++++++++-----------------
 osc_serial.h |  5 ++++-
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 3359f60..b1f9bea 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -269,32 +269,35 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			case 6:
 				OSC_SERIAL_RETURN(s + 1);
 			case 7:
-				// do negative size check
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 24));
+				if(b & 0x80){
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_NEGATIVESIZE);
+				}
+				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((uint32_t)b & 0xff) << 24));
 			}
 		}
 	case OSC_SERIAL_BUNDLE_MESSAGE:
 		switch(state){
 		case OSC_SERIAL_MESSAGE_SIZE:
-			{
-				int32_t c = count & 0xff;
+			if(micro == OSC_SERIAL_MESSAGE_SIZE_COMPLETE){
+				if(b == '/'){
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
+				}else{
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
+				}
+			}else{
+				uint32_t c = count & 0xff;
+				uint32_t byte = (uint32_t)b & 0xff;
 				switch(c){
 				case 0:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 16) | (c + 1));
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xff000000) | (byte << 16) | (c + 1));
 				case 1:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 8) | (c + 1));
-				case 2:
-					// negative size check
-					//count = ntoh32(count | b);
-					count = count | b;
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count - 2));
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xffff0000) | (byte << 8) | (c + 1));
 				default:
-					//count = ntoh32(count);
-					if(b == '/'){
-						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
-					}else{
-						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
+					count = (count & 0xffffff00) | byte;
+					if(count == 0 || count % 4){
+						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_BADALIGNMENT);
 					}
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_MESSAGE_SIZE_COMPLETE | count);
 				}
 			}
 		case OSC_SERIAL_MESSAGE_ADDRESS:
@@ -418,7 +421,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			}
 		case OSC_SERIAL_MESSAGE_DATA:
 			if(count <= 0){
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE);
+				if(b & 0x80){
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_NEGATIVESIZE);
+				}
+				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((uint32_t)b & 0xff) << 24));
 			}else{
 				OSC_SERIAL_RETURN(s - 1);
 			}
diff --git a/osc_serial.h b/osc_serial.h
index 8bd03ea..3768ca7 100644
--- a/osc_serial.h
+++ b/osc_serial.h
@@ -34,7 +34,7 @@ The counter allows us to keep track of 4-byte alignment and to make sure that th
 When going through the header, the counter is simply incremented since we know how long the two header fields are.
 For the size of a message, we use the lowest byte as a counter to record where we are in the size field, while we pack the
 size bytes into the upper 3 bytes of the counter.  When we reach the last byte of the size, we put it in the lowest
-byte of the counter and then count down as we pass through the rest of the message.  When we get to 0, we've either 
+byte of the counter (recording that the size is complete in a micro state) and then count down as we pass through the rest of the message.  When we get to 0, we've either 
 gone off the end of the buffer or started a new message.
  */
 
@@ -57,6 +57,9 @@ gone off the end of the buffer or started a new message.
 #define OSC_SERIAL_MESSAGE_TYPETAGS 0x0004000000000000ull
 #define OSC_SERIAL_MESSAGE_DATA 0x0008000000000000ull
 
+// size micro states
+#define OSC_SERIAL_MESSAGE_SIZE_COMPLETE 0x0000010000000000ull
+
 // address micro states
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS 0x0000010000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA 0x0000020000000000ull
-- 
2.43.0


From 6c3f0187584bdda118af3853d2a797dfbc69b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 060/169] fix: the byte checker sees a message end without
 data, and one that ends too early

---
 osc_serial.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/osc_serial.c b/osc_serial.c
index b1f9bea..3852088 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -190,7 +190,7 @@ int osc_serial_errorp(uint64_t state)
 	return (state & OSC_SERIAL_ERROR_MASK) != 0;
 }
 
-uint64_t osc_serial_processByte(char b, uint64_t s)
+static uint64_t osc_serial_step(char b, uint64_t s)
 {
 	uint64_t macro = s & 0xff00000000000000;
 	uint64_t state = s & 0x00ff000000000000;
@@ -552,6 +552,30 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 	OSC_SERIAL_RETURN(0);
 }
 
+uint64_t osc_serial_processByte(char b, uint64_t s)
+{
+	s = osc_serial_step(b, s);
+	if(osc_serial_errorp(s) || (s & 0xff00000000000000) != OSC_SERIAL_BUNDLE_MESSAGE || osc_serial_counter(s) != 0){
+		return s;
+	}
+	// b was the last byte of a message
+	uint64_t micro = s & 0x0000ff0000000000;
+	switch(s & 0x00ff000000000000){
+	case OSC_SERIAL_MESSAGE_ADDRESS:
+		if(micro == OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING){
+			OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_NOTYPETAGS);
+		}
+		OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+	case OSC_SERIAL_MESSAGE_TYPETAGS:
+		if(micro == OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING){
+			// there is no data
+			OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_DATA);
+		}
+		OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+	}
+	return s;
+}
+
 
 /*
 int main(int argc, char **argv)
-- 
2.43.0


From 37e9318b4734f25582f491839d67a856a821726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 061/169] fix: only adjacent commas or dashes in an address are
 doubled for the byte checker

---
 osc_serial.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 3852088..091a357 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -339,7 +339,7 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -363,7 +363,7 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 0){
@@ -464,7 +464,7 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -486,7 +486,7 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 3){
-- 
2.43.0


From a17905e7b350fd5da1e35f98d277b4afeab1267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 062/169] fix: the byte checker knows blobs

---
 osc_serial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 091a357..ad5c2eb 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -397,6 +397,7 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
@@ -520,6 +521,7 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
-- 
2.43.0


From ca334f1392a77d95d58ce67d3248594563ac1c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 063/169] fix: the byte checker reports unbalanced brackets in
 a single message too

---
 osc_serial.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index ad5c2eb..7c66431 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -442,6 +442,10 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS) + 1);
 				case '\0':
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING) + 1);
+				case ']':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTSQUAREBRACKET);
+				case '}':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -464,6 +468,8 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA | (count + 1));
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count + 1));
 				}
@@ -486,6 +492,8 @@ static uint64_t osc_serial_step(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH | (count + 1));
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count + 1));
 				}
-- 
2.43.0


From 28d4048a2baf2333012ad1493882b80cf5697c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 064/169] fix: a variable that is not an address but is
 assigned to does not leak its operands

---
 osc_expr_parser.y | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 524347a..8973b66 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1625,24 +1625,32 @@ expr:
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 ;
-- 
2.43.0


From 6b95c4422aa1733f15353cbe260ebda2591aae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 065/169] fix: the address between backticks is copied, not
 freed twice

---
 osc_expr_parser.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 8973b66..84be929 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1617,7 +1617,10 @@ expr:
 	}
 	| '`' OSC_EXPR_OSCADDRESS '`' {
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, osc_atom_u_getStringPtr($2));
+		char *address = NULL;
+		osc_atom_u_getString($2, 0, &address);
+		osc_expr_arg_setOSCAddress(arg, address);
+		osc_atom_u_free($2);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
 	}
 // invalid constructs that result in errors
-- 
2.43.0


From cfbe74f78c29e4e6c8a7fc56e90ffeeae70de16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 066/169] fix: the atoms of bundle member expressions are freed
 as atoms

---
 osc_expr_parser.y | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 84be929..204d063 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1321,8 +1321,8 @@ expr:
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_STRING '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
@@ -1335,8 +1335,7 @@ expr:
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		//osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($3);
 	}
 	/* | OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg CLOSE_DBL_BRKTS '.' OSC_EXPR_OSCADDRESS{ */
 	/* 	printf("here\n"); */
@@ -1463,8 +1462,8 @@ expr:
 		osc_expr_arg_append(a1, a2);
 		osc_expr_arg_append(a1, $5);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assigntobundlemember", a1);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg ':' arg CLOSE_DBL_BRKTS '=' arg{
 		char *ptr = NULL;
-- 
2.43.0


From 44464cd89b560be0aa9d8f5aef4a7dcca9686c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 067/169] fix: ^ and ^= are the pow function

---
 osc_expr_parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 204d063..9acf2b1 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1261,7 +1261,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg '^' arg {
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| arg OSC_EXPR_EQ arg {
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "==", $1, $3);
@@ -1309,7 +1309,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg OSC_EXPR_POWEQ arg {
-		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| OSC_EXPR_OSCADDRESS '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
-- 
2.43.0


From aba029d366ceed3534afa729edbd8ad3505b0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 068/169] fix: the body of a lambda neither leaks nor shares
 its expressions

---
 osc_expr_parser.y | 228 +++++++++++-----------------------------------
 1 file changed, 54 insertions(+), 174 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 9acf2b1..3809c3d 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -590,6 +590,50 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 	}
 }
 
+// builds the chain of expressions that makes up the body of a lambda.
+// anything that isn't an expression gets wrapped in one.  takes ownership of args.
+static t_osc_expr *osc_expr_parser_reduce_LambdaBody(t_osc_expr_arg *args)
+{
+	t_osc_expr *body = NULL;
+	while(args){
+		t_osc_expr_arg *next = osc_expr_arg_next(args);
+		t_osc_expr *e = NULL;
+		osc_expr_arg_setNext(args, NULL);
+		if(osc_expr_arg_getType(args) == OSC_EXPR_ARG_TYPE_EXPR){
+			e = osc_expr_arg_getExpr(args);
+			osc_expr_arg_setExpr(args, NULL);
+			osc_expr_arg_free(args);
+		}else{
+			e = osc_expr_alloc();
+			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
+			osc_expr_setArg(e, args);
+		}
+		if(body){
+			osc_expr_appendExpr(body, e);
+		}else{
+			body = e;
+		}
+		args = next;
+	}
+	return body;
+}
+
+static void osc_expr_parser_freeParameters(t_osc_atom_u *a)
+{
+	while(a){
+		t_osc_atom_u *next = a->next;
+		osc_atom_u_free(a);
+		a = next;
+	}
+}
+
+static void osc_expr_parser_freeFunction(t_osc_expr_rec *r)
+{
+	t_osc_expr *e = NULL;
+	osc_expr_rec_free(r, (void **)&e);
+	osc_expr_free(e);
+}
+
 %}
 
 %define api.pure full
@@ -626,7 +670,13 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 %type <func>function
 %type <arg>arg args msg msgs
 %type <atom> OSC_EXPR_QUOTED_EXPR parameters parameter
-%nonassoc <atom>OSC_EXPR_NUM OSC_EXPR_STRING OSC_EXPR_OSCADDRESS OSC_EXPR_LAMBDA
+%nonassoc OSC_EXPR_LAMBDA <atom>OSC_EXPR_NUM OSC_EXPR_STRING OSC_EXPR_OSCADDRESS
+
+%destructor { osc_atom_u_free($$); } <atom>
+%destructor { osc_expr_parser_freeParameters($$); } parameters
+%destructor { osc_expr_free($$); } <expr>
+%destructor { osc_expr_arg_freeList($$); } <arg>
+%destructor { osc_expr_parser_freeFunction($$); } <func>
 
 // low to high precedence
 // adapted from http://en.wikipedia.org/wiki/Operators_in_C_and_C%2B%2B
@@ -816,61 +866,7 @@ function:
 		}
 		*/
 		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $7;
-		t_osc_expr *exprlist = NULL;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				osc_expr_prependArg(e, aaa);
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
+		osc_expr_rec_setExtra(func, osc_expr_parser_reduce_LambdaBody($7));
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
 		if(startcond == START_EXPNS){
@@ -935,65 +931,7 @@ function:
 		}
 		*/
 		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $5;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		t_osc_expr *exprlist = NULL;
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
+		osc_expr_rec_setExtra(func, osc_expr_parser_reduce_LambdaBody($5));
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
 		if(startcond == START_EXPNS){
@@ -1037,65 +975,7 @@ function:
 		}
 		*/
 		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $6;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		t_osc_expr *exprlist = NULL;
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
+		osc_expr_rec_setExtra(func, osc_expr_parser_reduce_LambdaBody($6));
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
 		if(startcond == START_EXPNS){
-- 
2.43.0


From dbd6eb133b97e9a94878f3d10dda39f9626ee714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 069/169] fix: a parse that fails frees what it has built and
 returns no expression

---
 osc_expr_parser.y | 48 +++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 3809c3d..f328fcf 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -193,6 +193,15 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, NULL, scanner, ptr, &buflen, &buf, startcond, &started, context);
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
+	if(ret){
+		osc_expr_free(exprstack);
+		osc_expr_free(tmp_exprstack);
+		*f = NULL;
+		return ret;
+	}
 	if(tmp_exprstack){
 		if(exprstack){
 			osc_expr_appendExpr(exprstack, tmp_exprstack);
@@ -237,6 +246,12 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
+	if(ret){
+		*f = NULL;
+	}
 	return ret;
 }
 
@@ -469,9 +484,11 @@ t_osc_expr *osc_expr_parser_reduce_PrefixFunction(void *context,
 	t_osc_expr_rec *r = osc_expr_lookupFunction(function_name);
 	if(!r){
 		osc_expr_parser_reportUnknownFunctionError(context, llocp, input_string, function_name);
+		osc_expr_arg_freeList(arglist);
 		return NULL;
 	}
 	if(osc_expr_parser_checkArity(context, llocp, input_string, r, arglist)){
+		osc_expr_arg_freeList(arglist);
 		return NULL;
 	}
 	t_osc_expr *e = osc_expr_alloc();
@@ -579,6 +596,7 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 		char *buf = osc_mem_alloc(len);
 		memcpy(buf, st, len);
 		osc_expr_arg_setOSCAddress(a, buf);
+		osc_atom_u_free(value);
 	}else{
 		osc_expr_arg_setOSCAtom(a, value);
 	}
@@ -748,7 +766,7 @@ expns:  {
  	}
 	| expns ',' {
         	osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", NULL, NULL);
-        	return 1;
+        	YYABORT;
  	}
 	| OSC_EXPR_OSCADDRESS {
 		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 1);
@@ -1071,28 +1089,25 @@ expr:
 								     input_string,
 								     osc_atom_u_getStringPtr($1),
 								     $3);
+		osc_atom_u_free($1);
 		if(!e){
-			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		$$ = e;
-		osc_atom_u_free($1);
   	}
     | OSC_EXPR_STRING '(' args ',' ')' %prec OSC_EXPR_FUNC_CALL {
-        char *ptr = NULL;
-        osc_atom_u_getString($1, 0, &ptr);
-        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", ptr, ptr);
+        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma");
         osc_atom_u_free($1);
-        return 1;
+        osc_expr_arg_freeList($3);
+        YYABORT;
     }
 	| OSC_EXPR_STRING '(' ')' %prec OSC_EXPR_FUNC_CALL {
 		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), NULL);
+		osc_atom_u_free($1);
 		if(!e){
-			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		$$ = e;
-		osc_atom_u_free($1);
   	}
 	| OSC_EXPR_QUOTED_EXPR {
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
@@ -1243,7 +1258,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1255,7 +1270,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1268,7 +1283,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1280,7 +1295,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1450,7 +1465,8 @@ expr:
 		// /foo ?? 10 means /foo if /foo is in the bundle, otherwise 10
 		t_osc_expr *if_expr = osc_expr_parser_reduce_NullCoalescingOperator(context, &yylloc, input_string, $1, $3);
 		if(!if_expr){
-			return 1;
+			osc_atom_u_free($1);
+			YYABORT;
 		}
 		char *ptr = NULL;
 		osc_atom_u_getString($1, 0, &ptr);
-- 
2.43.0


From 1fad2bf4f56d34de9ffaac79c38b03ff71c20ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 070/169] fix: the location of a syntax error is formatted with
 its terminator, in a buffer of its size

---
 osc_expr_parser.y | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index f328fcf..673eb24 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -268,20 +268,15 @@ void osc_expr_error_formatLocation(YYLTYPE *llocp, char *input_string, char **bu
 	int len = strlen(input_string);
 	if(llocp->first_column >= len || llocp->last_column >= len){
 		*buf = osc_mem_alloc(len + 1);
-		strncpy(*buf, input_string, len );
+		memcpy(*buf, input_string, len + 1);
 		return;
 	}
-	char s1[len * 2];
-	char s2[len * 2];
-	char s3[len * 2];
-	memcpy(s1, input_string, llocp->first_column);
-	s1[llocp->first_column] = '\0';
-	memcpy(s2, input_string + llocp->first_column, llocp->last_column - llocp->first_column);
-	s2[llocp->last_column - llocp->first_column] = '\0';
-	memcpy(s3, input_string + llocp->last_column, len - llocp->last_column);
-	s3[len - llocp->last_column] = '\0';
-	*buf = osc_mem_alloc(len * 3 + 24); // way too much
-	sprintf(*buf, "%s\n-->                %s\n%s\n", s1, s2, s3);
+	int buflen = len + 24;
+	*buf = osc_mem_alloc(buflen);
+	snprintf(*buf, buflen, "%.*s\n-->                %.*s\n%s\n",
+		 llocp->first_column, input_string,
+		 llocp->last_column - llocp->first_column, input_string + llocp->first_column,
+		 input_string + llocp->last_column);
 }
 
 void osc_expr_error(void *context, YYLTYPE *llocp,
-- 
2.43.0


From 9955b018f317e97821b6fdd1ce340f4f2c86e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 071/169] fix: the text of an expression is not the format
 string of its error report

---
 osc_expr_parser.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 673eb24..7e59a6c 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -305,7 +305,7 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
     va_end(ap);
     
 	if(loclen || more_len){
-		char buf[loclen + more_len + 3];
+		char *buf = osc_mem_alloc(loclen + more_len + 3);
 		char *ptr = buf;
 		if(loclen){
 			ptr += sprintf(ptr, "%s\n", loc);
@@ -319,7 +319,9 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 				  NULL,
 				  -1,
 				  errorcode,
+				  "%s",
 				  buf);
+		osc_mem_free(buf);
 	}else{
 	  osc_error_handler(context,
 					__FILE__,//basename(__FILE__),
-- 
2.43.0


From 1daac50c3fa55bb32e81e74e177c479acccfc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 072/169] fix: a character no rule matches is a syntax error
 instead of being echoed

---
 osc_expr_scanner.l | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index cfa5e41..a24d76f 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -340,6 +340,10 @@ lambda				{
 
 [ \t\n]+	/* eat up whitespace */
 
+. {
+	return (unsigned char)*yytext;
+}
+
 
 
 %%
-- 
2.43.0


From 73a39527fc70e8de3cc9b7756676ac163ce35f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 073/169] fix: integers beyond 32 bits are not truncated

---
 osc_expr_scanner.l | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index a24d76f..5cdb1fe 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -238,11 +238,17 @@ quote[[:space:]]*\( {
 (([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
 						// int 
 						char *endptr = NULL;
-						int32_t i = strtol(yytext, &endptr, 10);
+						uint64_t i = strtoull(yytext, &endptr, 10);
 						if(alloc_atom){
 							yylval->atom = osc_atom_u_alloc();
 						}
-						osc_atom_u_setInt32(yylval->atom, i);
+						if(i <= INT32_MAX){
+							osc_atom_u_setInt32(yylval->atom, i);
+						}else if(i <= INT64_MAX){
+							osc_atom_u_setInt64(yylval->atom, i);
+						}else{
+							osc_atom_u_setUInt64(yylval->atom, i);
+						}
 						return OSC_EXPR_NUM;
 					}
 0[xX][[:digit:]abcdefABCDEF]+ 	{
-- 
2.43.0


From 2dcfed2c72d0b54820b1a5847fe3b9f4308e0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 074/169] fix: unbalanced parentheses in quote( are a syntax
 error

---
 osc_expr_scanner.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 5cdb1fe..b1e7dbf 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -161,7 +161,8 @@ quote[[:space:]]*\( {
     
     if( np != 0 )
     {
-        return 0;
+        // unbalanced parentheses
+        return '(';
     }
 
 	yyless(end - start);
-- 
2.43.0


From 87dc90b084944caeabb8e7a6dbb7c5e8c5876d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:21 +0000
Subject: [PATCH 075/169] fix: quoted strings unescape quotes and backslashes,
 may be empty and must be terminated

---
 osc_expr_scanner.l | 70 ++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index b1e7dbf..2a9313e 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -38,6 +38,14 @@ int osc_expr_scanner_wrap(yyscan_t scanner){
 	return 1;
 }
 
+static void osc_expr_scanner_appendToBuf(char *text, int len, long *buflen, char **buf)
+{
+	*buf = osc_mem_resize(*buf, *buflen + len + 1);
+	memcpy(*buf + *buflen, text, len);
+	*buflen += len;
+	(*buf)[*buflen] = '\0';
+}
+
 %}
 
 dseq      ([[:digit:]]+)
@@ -166,6 +174,7 @@ quote[[:space:]]*\( {
     }
 
 	yyless(end - start);
+	yycolumn = yylloc->last_column = yylloc->first_column + yyleng;
 	if(alloc_atom){
 		yylval->atom = osc_atom_u_alloc();
 	}
@@ -180,52 +189,35 @@ quote[[:space:]]*\( {
 	BEGIN(quote);
 }
 
-<quote>[^\"]+ { 
-	if(*buf){
-		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
-		*buflen += yyleng + 1;
-		strcat(*buf, yytext);
-	}else{
-		//char *copy = osc_mem_alloc(yyleng + 1);
-		//strncpy(copy, yytext, yyleng + 1);
-		//t_osc_atom_u *a = osc_atom_u_alloc();
-		//yylval->atom = a;
-		if(alloc_atom){
-			yylval->atom = osc_atom_u_alloc();
-		}
-		osc_atom_u_setString(yylval->atom, yytext);
-		return OSC_EXPR_STRING;
-	}
+<quote>{quoted_string}+ {
+	osc_expr_scanner_appendToBuf(yytext, yyleng, buflen, buf);
+}
+
+<quote>\\[\"\\] {
+	osc_expr_scanner_appendToBuf(yytext + 1, 1, buflen, buf);
+}
+
+<quote>\\ {
+	osc_expr_scanner_appendToBuf(yytext, 1, buflen, buf);
 }
 
 <quote>\" {
 	BEGIN(0);
-	if(*buf){
-		t_osc_atom_u *a = osc_atom_u_alloc();
-		//osc_atom_u_setStringPtr(a, *buf);
-		//osc_atom_u_setShouldFreePtr(a, 1);
-		yylval->atom = osc_atom_u_allocWithString(*buf);
-		//yylval->string = *buf;
-		*buf = NULL;
-		*buflen = 0;
-		return OSC_EXPR_STRING;
+	if(alloc_atom){
+		yylval->atom = osc_atom_u_alloc();
 	}
+	osc_atom_u_setString(yylval->atom, *buf ? *buf : "");
+	osc_mem_free(*buf);
+	*buf = NULL;
+	*buflen = 0;
+	return OSC_EXPR_STRING;
 }
 
-<quote>{quoted_string}*\\. {
-	if(*buf){
-		*buf = osc_mem_resize(*buf, *buflen + yyleng);
-		memcpy(*buf + *buflen, yytext, yyleng - 1);
-		*buflen += yyleng - 1;
-		(*buf)[*buflen - 1] = yytext[yyleng - 1];
-		(*buf)[*buflen] = '\0';
-	}else{
-		*buf = osc_mem_alloc(yyleng);
-		memcpy(*buf, yytext, yyleng - 1);
-		*buflen = yyleng - 1;
-		(*buf)[*buflen - 1] = yytext[yyleng - 1];
-		(*buf)[*buflen] = '\0';
-	}
+<quote><<EOF>> |
+<quote_function><<EOF>> {
+	// unterminated string or quote
+	BEGIN(0);
+	return '"';
 }
 
 \"\" {
-- 
2.43.0


From c8706342c9acdc7932c97043736e01e1982e552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:21 +0000
Subject: [PATCH 076/169] fix: the column of the expression scanner belongs to
 the scanner, not to the process

---
 osc_expr_scanner.l | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 2a9313e..608306e 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -29,10 +29,8 @@
 #include "osc_expr_parser.h"
 #include "osc_expr.h"
 
-int colnum;
-
-#define YY_USER_INIT {yylineno = 0;colnum = 0; yylloc->first_line = 0; yylloc->first_column = 0; yylloc->last_column = 0; yylloc->last_line = 0;}
-#define YY_USER_ACTION {yylloc->first_line = yylineno; yylloc->first_column = colnum; colnum=colnum+yyleng; yylloc->last_column = colnum; yylloc->last_line = yylineno;}
+#define YY_USER_INIT {yylineno = 0;yycolumn = 0; yylloc->first_line = 0; yylloc->first_column = 0; yylloc->last_column = 0; yylloc->last_line = 0;}
+#define YY_USER_ACTION {yylloc->first_line = yylineno; yylloc->first_column = yycolumn; yycolumn=yycolumn+yyleng; yylloc->last_column = yycolumn; yylloc->last_line = yylineno;}
 
 int osc_expr_scanner_wrap(yyscan_t scanner){
 	return 1;
-- 
2.43.0


From fde58535ebe53d7ad8758f04e3a1845423fd2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 077/169] fix: arithmetic on two booleans gives an int32
 instead of leaving the result unset

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 35a811c..e57ff6f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2380,6 +2380,8 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			case 'T':
+			case 'F':
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) + osc_atom_u_getInt32(f2));
 				break;
@@ -2482,6 +2484,8 @@ int osc_expr_multiply(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			case 'T':
+			case 'F':
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) * osc_atom_u_getInt32(f2));
 				break;
@@ -2547,6 +2551,8 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 			// }
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			case 'T':
+			case 'F':
 			case 'i':
 				{
 					int32_t i2 = osc_atom_u_getInt32(f2);
-- 
2.43.0


From 1f030c3263407d4d44f6a12f4a031acefe84dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 078/169] fix: subtraction of integers gives the promoted type,
 not always an int32

---
 osc_expr.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index e57ff6f..13ebf3a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2434,7 +2434,35 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
 		}else{
-			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
+			switch(tt){
+			case 'T':
+			case 'F':
+			case 'i':
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+				break;
+			case 'I':
+				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) - osc_atom_u_getUInt32(f2));
+				break;
+			case 'h':
+				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) - osc_atom_u_getInt64(f2));
+				break;
+			case 'H':
+				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) - osc_atom_u_getUInt64(f2));
+				break;
+			case 'u':
+				osc_atom_u_setInt16(*result, osc_atom_u_getInt16(f1) - osc_atom_u_getInt16(f2));
+				break;
+			case 'U':
+				osc_atom_u_setUInt16(*result, osc_atom_u_getUInt16(f1) - osc_atom_u_getUInt16(f2));
+				break;
+			case 'c':
+				osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) - osc_atom_u_getInt8(f2));
+				break;
+			case 'C':
+				osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) - osc_atom_u_getUInt8(f2));
+				break;
+			}
 		}
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
-- 
2.43.0


From 7defb421d34111ea07cf97453d505913b10c30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 079/169] fix: division of unsigned 8-bit integers is unsigned

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 13ebf3a..4b93602 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2653,11 +2653,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
-- 
2.43.0


From 5026fd4efd560fd65c9ad0a3597625c3509737ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 080/169] fix: dividing the smallest integer by -1 does not
 trap

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 4b93602..29caa9f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2586,6 +2586,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					int32_t i2 = osc_atom_u_getInt32(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
+					}else if(i2 == -1){
+						// the smallest number has no positive counterpart; dividing it traps
+						osc_atom_u_setInt32(*result, 0 - (uint32_t)osc_atom_u_getInt32(f1));
 					}else{
 						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
 					}
@@ -2606,6 +2609,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					int64_t i2 = osc_atom_u_getInt64(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
+					}else if(i2 == -1){
+						// the smallest number has no positive counterpart; dividing it traps
+						osc_atom_u_setInt64(*result, 0 - (uint64_t)osc_atom_u_getInt64(f1));
 					}else{
 						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
 					}
-- 
2.43.0


From ef43706c9a58eb1647712fbe3f03cb2b130e6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 081/169] fix: the modulus of integers gives the promoted type
 and is exact beyond 32 bits

---
 osc_expr.c | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 29caa9f..27abd2d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3107,6 +3107,18 @@ double _osc_expr_fmod(double x, double m)
 	return x - m * _osc_expr_sign(m) * floor(x / fabs(m));
 }
 
+static int64_t osc_expr_imod(int64_t x, int64_t m)
+{
+	if(m == 0 || m == -1){
+		return 0;
+	}
+	int64_t r = x % m;
+	if(r < 0){
+		r = m < 0 ? r - m : r + m;
+	}
+	return r;
+}
+
 int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void* context)
 {
 	if(!f1){
@@ -3149,7 +3161,40 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			osc_atom_u_copyInto(result, f1);
 			return 0;
 		}
-		osc_atom_u_setInt32(*result, (int32_t)m);
+		char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
+		if(!OSC_TYPETAG_ISNUMERIC(tt1) || !OSC_TYPETAG_ISNUMERIC(tt2)){
+			tt = 0;
+		}
+		switch(tt){
+		case 'H':
+			osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) % osc_atom_u_getUInt64(f2));
+			break;
+		case 'I':
+			osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) % osc_atom_u_getUInt32(f2));
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(*result, osc_atom_u_getUInt16(f1) % osc_atom_u_getUInt16(f2));
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) % osc_atom_u_getUInt8(f2));
+			break;
+		case 'h':
+			osc_atom_u_setInt64(*result, osc_expr_imod(osc_atom_u_getInt64(f1), osc_atom_u_getInt64(f2)));
+			break;
+		case 'u':
+			osc_atom_u_setInt16(*result, osc_expr_imod(osc_atom_u_getInt16(f1), osc_atom_u_getInt16(f2)));
+			break;
+		case 'c':
+			osc_atom_u_setInt8(*result, osc_expr_imod(osc_atom_u_getInt8(f1), osc_atom_u_getInt8(f2)));
+			break;
+		case 'i':
+		case 'T':
+		case 'F':
+			osc_atom_u_setInt32(*result, osc_expr_imod(osc_atom_u_getInt32(f1), osc_atom_u_getInt32(f2)));
+			break;
+		default:
+			osc_atom_u_setInt32(*result, (int32_t)m);
+		}
 	}
 	return 0;
 }
-- 
2.43.0


From 73adaa007d96ee8834a34eb55d75e149878e2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 082/169] fix: != accepts nil, as == does

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 27abd2d..ff8a4cc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2883,6 +2883,10 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 0);
+	}else if(tt1 == 'N' && tt2 == 'N'){
+		osc_atom_u_setBool(*result, 0);
+	}else if(tt1 == 'N' || tt2 == 'N'){
+		osc_atom_u_setBool(*result, 1);
 	}else if(tt1 == OSC_BUNDLE_TYPETAG && tt2 == OSC_BUNDLE_TYPETAG){
 		t_osc_bndl_u *b1 = osc_atom_u_getBndl(f1);
 		t_osc_bndl_u *b2 = osc_atom_u_getBndl(f2);
-- 
2.43.0


From 7aa081e3e98946a5f37abf6de6945469ff13054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 083/169] fix: increment and decrement keep the type of every
 integer and reject what is not a number

---
 osc_expr.c | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index ff8a4cc..f8815c3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3232,6 +3232,8 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		t_osc_atom_u *a = osc_atom_array_u_get(*argv, i);
 		char tt = osc_atom_u_getTypetag(a);
 		switch(tt){
+		case 'T':
+		case 'F':
 		case 'i':
 			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getInt32(a) + 1);
 			break;
@@ -3241,15 +3243,30 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
 			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) + 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
+			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) + 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) + 1);
+			break;
+		default:
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "bad argument for plus1: %s", osc_typetag_str(tt));
+			return 1;
 		}
 	}
 	return 0;
@@ -3265,6 +3282,8 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		t_osc_atom_u *a = osc_atom_array_u_get(*argv, i);
 		char tt = osc_atom_u_getTypetag(a);
 		switch(tt){
+		case 'T':
+		case 'F':
 		case 'i':
 			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getInt32(a) - 1);
 			break;
@@ -3274,15 +3293,30 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
 			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) - 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
+			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) - 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) - 1);
+			break;
+		default:
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "bad argument for minus1: %s", osc_typetag_str(tt));
+			return 1;
 		}
 	}
 	return 0;
-- 
2.43.0


From 3b99825df8d83c90508073380ad1a8bfab334ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 084/169] fix: logical not looks at all bits of an integer of
 any width

---
 osc_expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f8815c3..c6923cc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4207,12 +4207,15 @@ int osc_expr_not(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		switch(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, i))){
-			// lazy...
+		case 'c':
+		case 'C':
+		case 'u':
+		case 'U':
 		case 'i':
 		case 'I':
 		case 'h':
 		case 'H':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i))));
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt64(osc_atom_array_u_get(*argv, i))));
 			break;
 		case 'f':
 		case 'd':
-- 
2.43.0


From d64d701334aca1459866b6be3b32986929f126ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 085/169] fix: nextafter does not read an argument that is not
 there

---
 osc_expr.c      | 6 ++++++
 osc_expr_func.h | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index c6923cc..8972697 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3322,6 +3322,12 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	return 0;
 }
 
+// the next representable number upwards
+double osc_expr_nextafter(double x)
+{
+	return nextafter(x, INFINITY);
+}
+
 int osc_expr_ilogb(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context)
 {
 	if(argc != 1){
diff --git a/osc_expr_func.h b/osc_expr_func.h
index 524b4fc..beac1ef 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -78,6 +78,7 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 int osc_expr_assign(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
 int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
 int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
+double osc_expr_nextafter(double x);
 int osc_expr_ilogb(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
 int osc_expr_jn(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context);
 int osc_expr_yn(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context);
@@ -1259,7 +1260,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (char *[]){"/math/constant", NULL},
 	 "Next representable double-precision floating-point number",
 	 osc_expr_1arg_dbl,
-	 (void *)nextafter},
+	 (void *)osc_expr_nextafter},
 	//////////////////////////////////////////////////
 	{"remainder",
 	 "/result = remainder($1, $2)",
-- 
2.43.0


From 2b8b07ba71398328cf6aabb22f5792f75ed2d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 086/169] fix: degtorad and radtodeg are accurate to double
 precision

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8972697..9de1f46 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5903,7 +5903,7 @@ int osc_expr_degtorad(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 {
 	*out = osc_atom_array_u_alloc(1);
 
-	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 0.017453);
+	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 0.017453292519943295);
 	return 0;
 }
 
@@ -5911,7 +5911,7 @@ int osc_expr_radtodeg(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 {
 	*out = osc_atom_array_u_alloc(1);
 
-	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 57.29578);
+	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 57.295779513082323);
 	return 0;
 }
 
-- 
2.43.0


From 07dbb6afce8ef1cb451b3d36773d4011df33f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 087/169] fix: the product of floating-point numbers keeps its
 fraction

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 9de1f46..b2e6d2a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3495,6 +3495,9 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 		}
 		int i;
 		for(i = 0; i < len; i++){
+			if(OSC_TYPETAG_ISFLOAT(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[j], i)))){
+				doubleup = 1;
+			}
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
-- 
2.43.0


From ca9562855172558c889382234cd4101571aa202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 088/169] fix: sums and products below the range of int32 and
 beyond that of uint64

---
 osc_expr.c | 50 ++++++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index b2e6d2a..596430f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3479,6 +3479,24 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 	return 0;
 }
 
+// the smallest of int32, uint32, int64, uint64 and double that holds val
+static void osc_expr_setNumber(t_osc_atom_u *a, double val, int dbl)
+{
+	if(dbl || val != val){
+		osc_atom_u_setDouble(a, val);
+	}else if(val >= -2147483648. && val < 2147483648.){
+		osc_atom_u_setInt32(a, (int32_t)val);
+	}else if(val >= 0. && val < 4294967296.){
+		osc_atom_u_setUInt32(a, (uint32_t)val);
+	}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
+		osc_atom_u_setInt64(a, (int64_t)val);
+	}else if(val >= 0. && val < 18446744073709551616.){
+		osc_atom_u_setUInt64(a, (uint64_t)val);
+	}else{
+		osc_atom_u_setDouble(a, val);
+	}
+}
+
 int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	*out = osc_atom_array_u_alloc(1);
@@ -3501,21 +3519,7 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
-	if(doubleup){
-		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
-	}
+	osc_expr_setNumber(osc_atom_array_u_get(*out, 0), val, doubleup);
 	return 0;
 }
 
@@ -3542,21 +3546,7 @@ int osc_expr_sum(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 			val += osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
-	if(doubleup){
-		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
-	}
+	osc_expr_setNumber(osc_atom_array_u_get(*out, 0), val, doubleup);
 	return 0;
 }
 
-- 
2.43.0


From f1a36441006debfb8a221f78f7748e6eda95e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 089/169] fix: the median of an empty list is an error, not a
 read outside the list

---
 osc_expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 596430f..f5cfdec 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3832,9 +3832,12 @@ int comp(const void *val1, const void *val2){
 
 int osc_expr_median(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
-	*out = osc_atom_array_u_alloc(1);
-
 	long len = osc_atom_array_u_getLen(*argv);
+	if(len == 0){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "median: the list is empty");
+		return 1;
+	}
+	*out = osc_atom_array_u_alloc(1);
 	double *tmp = NULL;
 	osc_atom_array_u_getDoubleArray(*argv, &tmp);
 	qsort((void *)(tmp), len, sizeof(double), comp);
-- 
2.43.0


From 4b9d3001f2e7c10cc963657a274d6a826c7f1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 090/169] fix: sortidx frees the strings of its copies

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index f5cfdec..54b3558 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3968,7 +3968,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     for( int i = 0; i < n; i++ )
     {
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
-        osc_mem_free(sort_ar[i].a);
+        osc_atom_u_free(sort_ar[i].a);
     }
     
     return 0;
-- 
2.43.0


From 0241d4235b37d319679c30cb22f31cac8be64938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 091/169] fix: nfill with one argument fills with 0, as
 documented

---
 osc_expr.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 54b3558..0937be4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4014,22 +4014,21 @@ int osc_expr_list(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 
 int osc_expr_nfill(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
-    if(argc < 2){
-        osc_expr_err_argnum(context, 2, argc, 1, "osc_expr: nfill()");
-        return 1;
-    }
 	int n = osc_atom_u_getInt(osc_atom_array_u_get(*argv, 0));
 	if(n < 0){
 		n = 0;
 	}
 	//t_osc_atom_u *val = NULL;
 
-	int outlen = n * osc_atom_array_u_getLen(argv[1]);
+	long vallen = argc > 1 ? osc_atom_array_u_getLen(argv[1]) : 1;
+	long outlen = n * vallen;
 	*out = osc_atom_array_u_alloc(outlen);
-	int j = 0;
 	for(int i = 0; i < n; i++){
-		osc_atom_array_u_copyInto(out, argv[1], j);
-		j += osc_atom_array_u_getLen(argv[1]);
+		if(argc > 1){
+			osc_atom_array_u_copyInto(out, argv[1], i * vallen);
+		}else{
+			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), 0.);
+		}
 	}
 	/*
 	int alloc = 0;
-- 
2.43.0


From 5aa109f32ed150d26c348193ee231f94cf792728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 092/169] fix: sequences beyond the range of int32

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0937be4..9260100 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4116,7 +4116,7 @@ int osc_expr_aseq(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		}
 	}else{
 		for(i = 0; i < n; i++){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), start);
+			osc_expr_setNumber(osc_atom_array_u_get(*out, i), start, 0);
 			start += step;
 		}
 	}
-- 
2.43.0


From 0a2ed07adc86f9fef6a9cf741e55816ff9288f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 093/169] fix: the determinant of a singular matrix of four or
 more rows is 0, not NaN

---
 osc_expr.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9260100..e81a04f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4466,7 +4466,7 @@ int LUPDecompose(double **A, int N, double Tol, int *P) {
 				imax = k;
 			}
 
-		if (maxA < Tol) return 0; //failure, matrix is degenerate
+		if (maxA <= Tol) return 0; //failure, matrix is degenerate
 
 		if (imax != i) {
 			//pivoting P
@@ -4562,8 +4562,7 @@ int osc_expr_det(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 		int P[argc + 1];
 		memset(P, 0, sizeof(int) * (argc + 1));
-		LUPDecompose(cells, argc, 0, P);
-		double d = LUPDeterminant(cells, P, argc);
+		double d = LUPDecompose(cells, argc, 0, P) ? LUPDeterminant(cells, P, argc) : 0.;
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), d);
 		for(int j = 0; j < argc; j++){
 			if(cells[j]){
-- 
2.43.0


From 2849aa04912b344ce82e3e6216c8417131cc6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 094/169] fix: min, max, extrema and range of an empty list are
 errors, infinities have a minimum and a maximum

---
 osc_expr.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e81a04f..f4e317a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4707,6 +4707,10 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "min: the list is empty");
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
@@ -4714,7 +4718,7 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
-		if(f <= min){
+		if(!a || f <= min){
 			min = f;
 			a = osc_atom_array_u_get(*argv, i);
 		}
@@ -4728,6 +4732,10 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "max: the list is empty");
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
@@ -4735,7 +4743,7 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
-		if(f >= max){
+		if(!a || f >= max){
 			max = f;
 			a = osc_atom_array_u_get(*argv, i);
 		}
@@ -4749,6 +4757,10 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "extrema: the list is empty");
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(2);
 
 	int i;
@@ -4756,11 +4768,11 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	t_osc_atom_u *amin = NULL, *amax = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
-		if(f <= min){
+		if(!amin || f <= min){
 			min = f;
 			amin = osc_atom_array_u_get(*argv, i);
 		}
-		if(f >= max){
+		if(!amax || f >= max){
 			max = f;
 			amax = osc_atom_array_u_get(*argv, i);
 		}
@@ -4776,6 +4788,10 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "range: the list is empty");
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-- 
2.43.0


From 337e18ea9da95d8b3b8879d13f696e1012155fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 095/169] fix: ranges beyond int32

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index f4e317a..65e669b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4816,7 +4816,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	if(ttmin == 'f' || ttmin == 'd' || ttmax == 'f' || ttmax == 'd'){
 		osc_atom_u_setDouble(r, max - min);
 	}else{
-		osc_atom_u_setInt32(r, max - min);
+		osc_expr_setNumber(r, max - min, 0);
 	}
 	return 0;
 }
-- 
2.43.0


From 98cc2a21851d675a6afd057e4c707f5c0f5e7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 096/169] fix: clip and scale results beyond int32

---
 osc_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 65e669b..0b8e509 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4863,7 +4863,7 @@ int osc_expr_clip(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		if(type == 'f' || type == 'd' || fl){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setNumber(osc_atom_array_u_get(result, i), val, 0);
 		}
 	}
 	return 0;
@@ -4911,7 +4911,7 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			if(fl || type == 'd' || type == 'f'){
 				osc_atom_u_setDouble(osc_atom_array_u_get(result, i), min_out);
 			}else{
-				osc_atom_u_setInt32(osc_atom_array_u_get(result, i), min_out);
+				osc_expr_setNumber(osc_atom_array_u_get(result, i), min_out, 0);
 			}
 		}
 		return 0;
@@ -4932,7 +4932,7 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		if(fl || type == 'd' || type == 'f'){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setNumber(osc_atom_array_u_get(result, i), val, 0);
 		}
 	}
 	return 0;
-- 
2.43.0


From 2039b7704fe87c6929c669735344f606cd8632c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 097/169] fix: strcmp of an empty list

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 0b8e509..05bec85 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5210,6 +5210,12 @@ int osc_expr_strcmp(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	char *st1 = NULL, *st2 = NULL;
 	osc_atom_u_getString(osc_atom_array_u_get(*argv, 0), 0, &st1);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &st2);
+	if(!st1 || !st2){
+		osc_mem_free(st1);
+		osc_mem_free(st2);
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "strcmp: a list is empty");
+		return 1;
+	}
 	int ret = 0;
 	if(argc == 3){
 		int n = osc_atom_u_getInt(osc_atom_array_u_get(argv[2], 0));
-- 
2.43.0


From cc78ba44e79f7b9b1273ed58a53ade8762b648d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 098/169] fix: strfind frees its copies when it finds nothing
 to look for

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 05bec85..73c2701 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5300,6 +5300,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
     osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &substr);
     if(!substr || !str){
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5308,6 +5310,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long substrlen = strlen(substr);
     if(substrlen == 0)
     {
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 0;
     }
     
-- 
2.43.0


From 6e1d98b3d9921c7d105839af96eb8d23da8f089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 099/169] fix: split frees its copies when the separator is
 empty

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 73c2701..0ebbb07 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5349,6 +5349,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &sep);
 	if(!sep || !str){
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5358,6 +5360,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			osc_atom_u_setInt8(a, str[i]);
 		}
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 0;
 	}
 	int n = 16;
-- 
2.43.0


From 1e02e9d6ac1f66c24497fd6fe7918424d06806ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 100/169] fix: join without a separator or without strings

---
 osc_expr.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0ebbb07..fa9e3e2 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5401,8 +5401,6 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	int seplen = 0;
 	if(sep){
 		seplen = strlen(sep);
-	}else{
-		sep = "";
 	}
 	int n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5429,13 +5427,14 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	}
 	len++;
 	char *buf = (char *)osc_mem_alloc(len);
+	*buf = '\0';
 	char *bufptr = buf;
 	for(int i = 0; i < n; i++){
 		if(ptrs[i]){
 			if(i == n - 1){
 				bufptr += sprintf(bufptr, "%s", ptrs[i]);
 			}else{
-				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep);
+				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep ? sep : "");
 			}
 			osc_mem_free(ptrs[i]);
 		}
-- 
2.43.0


From 8dfd5da3d4db407ea7af35216fd20cc783e4d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 101/169] fix: bitand and bitor of unsigned 8-bit integers

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index fa9e3e2..55d8b5f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5512,7 +5512,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
 	}
@@ -5583,7 +5583,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
 	}
-- 
2.43.0


From 8a90a9ac6106c7bb99d2b92eea84e3efb15b74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 102/169] fix: the text of characters below -99

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 55d8b5f..53f234b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6144,7 +6144,7 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 				buf[0] = c;
 				buf[1] = 0;
 			}else{
-				snprintf(buf, 4, "%d", c);
+				snprintf(buf, sizeof(buf), "%d", c);
 			}
 			osc_atom_u_setString(dest, buf);
 			return 0;
-- 
2.43.0


From 971eee1efb764777718b86d59ef3a0b3f4771fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 103/169] fix: cast with fewer typetags than values is an error

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 53f234b..ef542f1 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6199,6 +6199,10 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 		}else{
 			ttarray = *argv;
 		}
+		if(ttlen < arglen && !alloc){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "cast: %d typetags for %d values", ttlen, arglen);
+			return 1;
+		}
 		int n = osc_atom_array_u_getLen(argv[1]);
 		*out = osc_atom_array_u_alloc(n);
 		osc_atom_array_u_clear(*out);
-- 
2.43.0


From efa8d8ad749a02498f13ab7203794697b7cfcde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 104/169] fix: swapping the bytes of what is not an integer of
 that size is an error, not a value without a type

---
 osc_expr.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index ef542f1..9b7f32d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6279,6 +6279,11 @@ int osc_expr_hton32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), hton32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton32: the argument is not a 32-bit integer");
+				osc_atom_array_u_free(*out);
+				*out = NULL;
+				return 1;
 			}
 			k++;
 		}
@@ -6308,6 +6313,11 @@ int osc_expr_ntoh32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), ntoh32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh32: the argument is not a 32-bit integer");
+				osc_atom_array_u_free(*out);
+				*out = NULL;
+				return 1;
 			}
 			k++;
 		}
@@ -6339,6 +6349,11 @@ int osc_expr_hton64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton64: the argument is not an integer");
+				osc_atom_array_u_free(*out);
+				*out = NULL;
+				return 1;
 			}
 			k++;
 		}
@@ -6370,6 +6385,11 @@ int osc_expr_ntoh64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), ntoh64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh64: the argument is not an integer");
+				osc_atom_array_u_free(*out);
+				*out = NULL;
+				return 1;
 			}
 			k++;
 		}
-- 
2.43.0


From abb8687df1030d9ec4f04aedcb915ca74b462dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 105/169] fix: bitand and bitor take their type from the two
 integers they combine

---
 osc_expr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9b7f32d..c7c822a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5457,7 +5457,9 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
-	char largest_type = osc_typetag_getLargestType(argc, argv);
+	char tt1 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], 0));
+	char tt2 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0));
+	char largest_type = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 	switch(largest_type){
 	case 'i':
 		{
@@ -5528,7 +5530,9 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
-	char largest_type = osc_typetag_getLargestType(argc, argv);
+	char tt1 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], 0));
+	char tt2 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0));
+	char largest_type = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 	switch(largest_type){
 	case 'i':
 		{
-- 
2.43.0


From d40eadaf4d24a8faa6e739e9e5a6ca9d61e3ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 106/169] fix: sequences with an empty list for an end

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index c7c822a..0f851f4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4057,6 +4057,12 @@ int osc_expr_aseq(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		osc_expr_err_argnum(context, 2, argc, 1, "osc_expr: aseq()");
 		return 1;
 	}
+	for(int i = 0; i < argc; i++){
+		if(osc_atom_array_u_getLen(argv[i]) == 0){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "aseq: argument %d is empty", i + 1);
+			return 1;
+		}
+	}
 	int dblup = 0;
 	if(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0)) == 'f' ||
 	   osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0)) == 'f' ||
-- 
2.43.0


From cebaa8269c4745749ac38d5992008e4db9a3a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 107/169] fix: cast to an unknown typetag is an error, not a
 value without a type

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 0f851f4..9e82bac 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6257,6 +6257,12 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 			case 'b':
 				osc_expr_explicitCast_blob(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "cast: cannot cast to typetag %d", tt);
+				if(alloc){
+					osc_atom_array_u_free(ttarray);
+				}
+				return 1;
 			}
 		}
 		if(alloc){
-- 
2.43.0


From a98b260abdcdd44a282c61f67827bbcc7cf6fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:03 +0000
Subject: [PATCH 108/169] fix: scale maps integers exactly, the ends of the
 input range to the ends of the output range

---
 osc_expr.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9e82bac..0c413a5 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4922,9 +4922,6 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		}
 		return 0;
 	}
-	double m = (max_out - min_out) / (max_in - min_in);
-	double b = (min_out - (m * min_in));
-		
 	int i;
 	for(i = 0; i < len; i++){
 		char type = osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, i));
@@ -4934,7 +4931,7 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			continue;
 		}
 		double val = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
-		val = m * val + b;
+		val = min_out + (val - min_in) * (max_out - min_out) / (max_in - min_in);
 		if(fl || type == 'd' || type == 'f'){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-- 
2.43.0


From 0386d491ceaca67ec31575d3754e2bb5cfbdbb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 109/169] fix: match with a pattern that is not a string is an
 error, not a value without a type

---
 osc_expr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0c413a5..23f4d69 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6485,7 +6485,10 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	for(int i = 0; i < npatterns; i++){
 		t_osc_atom_u *pattern = osc_atom_array_u_get(argv[0], i);
 		if(osc_atom_u_getTypetag(pattern) != 's'){
-			continue;
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "match: pattern %d is not a string", i + 1);
+			osc_atom_array_u_free(*out);
+			*out = NULL;
+			return 1;
 		}
 		char *pattern_string = osc_atom_u_getStringPtr(pattern);
 		t_osc_bndl_u *b = osc_bundle_u_alloc();
-- 
2.43.0


From a19deaaea67c8347ef2aa0b4ffe6d2b4d0d7d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 110/169] fix: bundle() of a blob skips the size word and
 checks the bytes; bad addresses are errors that free what was built

---
 osc_expr.c | 100 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 48 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 23f4d69..82103f8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6579,71 +6579,75 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	*/
 }
 
+static int osc_expr_bundleFromBytes(t_osc_atom_u *dest, int32_t len, char *bytes, void *context)
+{
+	if(osc_error_bundleSanityCheck(len, bytes)){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle: the bytes are not a bundle");
+		return 1;
+	}
+	osc_atom_u_setBndl(dest, len, bytes);
+	return 0;
+}
+
+static t_osc_msg_u *osc_expr_bundleMessage(t_osc_atom_u *address, void *context)
+{
+	if(osc_atom_u_getTypetag(address) != 's' || osc_error_validateAddress(osc_atom_u_getStringPtr(address))){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle: expected an address");
+		return NULL;
+	}
+	return osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(address));
+}
+
 int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context)
 {
 	*out = osc_atom_array_u_alloc(1);
 	t_osc_atom_u *aout = osc_atom_array_u_get(*out, 0);
-	if(argc == 1){
-		// if there's only one argument, it's either:
-		// -- a blob: convert it to a subbundle
-		// -- a list: treat it as a list of bytes and convert it to a subbundle
-		// -- a string: create a subbundle and make that string the address of the only message
+	int ret = 0;
+	if(argc == 1 && osc_atom_array_u_getLen(argv[0]) == 1 && osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], 0)) == 'b'){
+		// a blob: convert it to a subbundle
+		t_osc_atom_u *a = osc_atom_array_u_get(argv[0], 0);
+		ret = osc_expr_bundleFromBytes(aout, osc_atom_u_getBlobLen(a), osc_atom_u_getBlob(a) + 4, context);
+	}else if(argc == 1 && osc_atom_array_u_getLen(argv[0]) != 1){
+		// a list: treat it as a list of bytes and convert it to a subbundle
 		int32_t n = osc_atom_array_u_getLen(argv[0]);
-		if(n == 1){
-			t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
-			if(osc_atom_u_getTypetag(a) == 'b'){
-				int32_t len = 0;
-				char *ptr = NULL;
-				osc_atom_u_getBlobCopy(a, &len, &ptr);
-				len -= 4;
-				osc_atom_u_setBndl(aout, len, ptr);
-				return 0;
-			}else if(osc_atom_u_getTypetag(a) == 's'){
-				t_osc_bndl_u *b = osc_bundle_u_alloc();
-				t_osc_msg_u *m = osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(a));
-				osc_bundle_u_addMsg(b, m);
-				osc_atom_u_setBndl_u(aout, b);
-				return 0;
-			}
-		}else{
-			int np = n;
-			while(np % 4){
-				np++;
-			}
-			char buf[np];
-			memset(buf, 0, np);
-			for(int i = 0; i < n; i++){
-				buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
-			}
-			osc_atom_u_setBndl(aout, np, buf);
-			return 0;
+		int32_t np = n;
+		while(np % 4){
+			np++;
 		}
+		char *buf = osc_mem_alloc(np + 1);
+		memset(buf, 0, np + 1);
+		for(int i = 0; i < n; i++){
+			buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
+		}
+		ret = osc_expr_bundleFromBytes(aout, np, buf, context);
+		osc_mem_free(buf);
 	}else{
-		// multiple arguments means at least one message
+		// addresses, each followed by the contents of the message
 		t_osc_bndl_u *b = osc_bundle_u_alloc();
-		for(int i = 0; i < argc; i++){
-			t_osc_atom_u *aa = osc_atom_array_u_get(argv[i], 0);
-			if(osc_atom_u_getTypetag(aa) != 's'){
-				osc_bundle_u_free(b);
-				osc_atom_array_u_free(*out);
-				*out = NULL;
-				return 1;
+		for(int i = 0; i < argc; i += 2){
+			t_osc_msg_u *m = osc_expr_bundleMessage(osc_atom_array_u_get(argv[i], 0), context);
+			if(!m){
+				ret = 1;
+				break;
 			}
-			t_osc_msg_u *m = osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(aa));
 			if(i + 1 < argc){
 				for(int j = 0; j < osc_atom_array_u_getLen(argv[i + 1]); j++){
 					osc_message_u_appendAtom(m, osc_atom_u_copy(osc_atom_array_u_get(argv[i + 1], j)));
 				}
-				i++;
 			}
 			osc_bundle_u_addMsg(b, m);
 		}
-		/* *out = osc_atom_array_u_alloc(1); */
-		/* t_osc_atom_u *a = osc_atom_array_u_get(*out, 0); */
-		osc_atom_u_setBndl_u(aout, b);
-		return 0;
+		if(ret){
+			osc_bundle_u_free(b);
+		}else{
+			osc_atom_u_setBndl_u(aout, b);
+		}
 	}
-	return 1;
+	if(ret){
+		osc_atom_array_u_free(*out);
+		*out = NULL;
+	}
+	return ret;
 }
 
 t_osc_expr *osc_expr_alloc(void)
-- 
2.43.0


From 19bac885147b7a5461367e170ec7afb75ad0e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 111/169] fix: apply leaves the parsed expression alone, stops
 at a failing argument and frees what it made

---
 osc_expr.c | 80 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 21 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 82103f8..2c180df 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -336,6 +336,39 @@ t_osc_err osc_expr_evalArgInLexEnv(t_osc_expr_arg *arg,
 // Special functions
 //////////////////////////////////////////////////
 
+// evaluates an argument of the special function called name.  An address without value is reported, and nothing
+// is left in out after an error.
+static t_osc_err osc_expr_evalSpecArg(t_osc_expr_arg *arg,
+				      t_osc_expr_lexenv *lexenv,
+				      long *len,
+				      char **oscbndl,
+				      t_osc_atom_ar_u **out,
+				      void *context,
+				      char *name)
+{
+	t_osc_err err = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, out, context);
+	if(err){
+		// the error of an expression has already been reported
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(arg) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), name);
+		}
+		if(*out){
+			osc_atom_array_u_free(*out);
+			*out = NULL;
+		}
+	}
+	return err;
+}
+
+// a list that holds a copy of one atom
+static t_osc_atom_ar_u *osc_expr_listOfAtom(t_osc_atom_u *a)
+{
+	t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(1);
+	t_osc_atom_u *dest = osc_atom_array_u_get(ar, 0);
+	osc_atom_u_copyInto(&dest, a);
+	return ar;
+}
+
 static int osc_expr_specFunc_apply(t_osc_expr *f,
 			    t_osc_expr_lexenv *lexenv,
 			    long *len,
@@ -379,9 +412,9 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		t_osc_expr_arg *arg = f_argv->next;
 		for(int i = 0; (i < nparams) && arg; i++){
 			t_osc_atom_ar_u *atoms = NULL;
-			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+			t_osc_err e = osc_expr_evalSpecArg(arg, lexenv, len, oscbndl, &atoms, context, "apply");
+			if(e){
+				osc_expr_destroyLexenv(lexenv_copy);
 				return e;
 			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
@@ -423,35 +456,34 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
 				if(osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
 					r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
+					// call it from an expression of its own: f must stay as it was parsed
 					t_osc_expr_arg *a = osc_expr_arg_alloc();
 					osc_expr_arg_setFunction(a, r);
 					osc_expr_arg_setNext(a, f_argv->next);
-					osc_expr_setArg(f, a);
-					int ret = osc_expr_specFunc_apply(f, lexenv, len, oscbndl, out, context);
-					//osc_expr_setArg(f, f_argv);
-					//osc_expr_arg_setNext(a, NULL);
-					//osc_expr_arg_free(a);
+					t_osc_expr *e = osc_expr_alloc();
+					osc_expr_setRec(e, osc_expr_getRec(f));
+					osc_expr_setArg(e, a);
+					int ret = osc_expr_specFunc_apply(e, lexenv, len, oscbndl, out, context);
+					// neither the function nor the arguments belong to e
+					osc_mem_free(a);
+					e->argv = NULL;
+					e->argc = 0;
+					osc_expr_free(e);
 					return ret;
 				}
 				//osc_atom_array_u_free(xx);
 			}
 		}else{
 			t_osc_atom_ar_u *ar = NULL;
-			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
+			t_osc_err e = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &ar, context, "apply");
+			if(e){
 				return e;
 			}
-			if(!ar){
-				//error
-				return 1;
-			}
-			if(osc_atom_array_u_getLen(ar) != 1){
-				//error
-				return 1;
-			}
-			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
-				//error
+			if(osc_atom_array_u_getLen(ar) != 1 || osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to apply() should be the name of a function");
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 				return 1;
 			}
 			char *stp = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
@@ -487,7 +519,13 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					return ret;
 				}
 			}
+			if(!r){
+				osc_error(context, OSC_ERR_EXPPARSE, "unrecognized function %s", stp);
+			}
 			osc_atom_array_u_free(ar);
+			if(!r){
+				return 1;
+			}
 		}
 		if(!r){
 			osc_error_handler(context,
-- 
2.43.0


From 10726dc99ce9268770c276a52aa9e2d9f5856670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 112/169] fix: map stops at a failing argument or application,
 accepts empty lists and passes strings as data

---
 osc_expr.c | 81 ++++++++++++++++++++++--------------------------------
 1 file changed, 33 insertions(+), 48 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2c180df..4dc3931 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -565,38 +565,26 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_expr_rec *r = osc_expr_lookupFunction("apply");
-	t_osc_expr *e = osc_expr_alloc();
-	osc_expr_setRec(e, r);
 
 	int ac = f_argc - 1;
 	t_osc_atom_ar_u *args[ac];
 	memset(args, '\0', ac * sizeof(t_osc_atom_ar_u *));
-	uint32_t min = ~0;
+	int min = 0;
+	int err = 0;
 	int i = 0;
 	t_osc_expr_arg *a = f_argv->next;
-	while(a){
-		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
-			// assume whoever generated this will post an error
-			for(int j = 0; j < i; j++){
-				if(args[j]){
-					osc_atom_array_u_free(args[j]);
-				}
-			}
-			e->argv = NULL;
-			e->argc = 0;
-			osc_expr_free(e);
-			return err;
-		}
+	while(a && !err){
+		err = osc_expr_evalSpecArg(a, lexenv, len, oscbndl, args + i, context, "map");
 		int count = osc_atom_array_u_getLen(args[i]);
-		if(count < min){
+		if(i == 0 || count < min){
 			min = count;
 		}
 		i++;
 		a = a->next;
 	}
+
+	t_osc_expr *e = osc_expr_alloc();
+	osc_expr_setRec(e, osc_expr_lookupFunction("apply"));
 	// arity check needs to go here
 	t_osc_expr_arg *func_args[ac + 1];
 	func_args[0] = NULL;
@@ -607,47 +595,44 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 		osc_expr_appendArg(e, func_args[i]);
 	}
 
-	t_osc_atom_ar_u *output[min];
-	memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
+	t_osc_atom_ar_u **output = NULL;
+	if(!err && min > 0){
+		output = (t_osc_atom_ar_u **)osc_mem_alloc(min * sizeof(t_osc_atom_ar_u *));
+		memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
+	}
 	int outcount = 0;
-	for(i = 0; i < min; i++){
-		int j;
-		for(j = 0; j < ac; j++){
-			osc_expr_arg_setOSCAtom(func_args[j + 1], osc_atom_array_u_get(args[j], i));
+	for(i = 0; !err && i < min; i++){
+		for(int j = 0; j < ac; j++){
+			// lists, because the strings among the elements are not names of parameters
+			osc_expr_arg_clear(func_args[j + 1]);
+			osc_expr_arg_setList(func_args[j + 1], osc_expr_listOfAtom(osc_atom_array_u_get(args[j], i)));
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
 		outcount += osc_atom_array_u_getLen(output[i]);
 	}
-	*out = osc_atom_array_u_alloc(outcount);
-	int pos = 0;
-	for(i = 0; i < min; i++){
-		osc_atom_array_u_copyInto(out, output[i], pos);
-		pos += osc_atom_array_u_getLen(output[i]);
+	if(!err){
+		*out = osc_atom_array_u_alloc(outcount);
+		int pos = 0;
+		for(i = 0; i < min; i++){
+			osc_atom_array_u_copyInto(out, output[i], pos);
+			pos += osc_atom_array_u_getLen(output[i]);
+		}
 	}
-	e->argv = NULL;
-	e->argc = 0;
 	osc_expr_free(e);
-	e = NULL;
-	if(func_args[0]){
-		osc_expr_arg_free(func_args[0]);
-	}
 	for(i = 0; i < ac; i++){
 		if(args[i]){
 			osc_atom_array_u_free(args[i]);
 		}
-		if(func_args[i + 1]){
-			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
-			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
-			osc_mem_free(func_args[i + 1]);
-		}
 	}
-	for(i = 0; i < min; i++){
-		if(output[i]){
-			osc_atom_array_u_free(output[i]);
+	if(output){
+		for(i = 0; i < min; i++){
+			if(output[i]){
+				osc_atom_array_u_free(output[i]);
+			}
 		}
+		osc_mem_free(output);
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_reduce(t_osc_expr *f,
-- 
2.43.0


From 99a0c46db57c45640a33e9a9ccb4486101afb79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 113/169] fix: lreduce and rreduce of empty lists, and of
 anything that fails, neither crash nor leak

---
 osc_expr.c | 166 ++++++++++++++++-------------------------------------
 1 file changed, 49 insertions(+), 117 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4dc3931..6dc287c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -647,136 +647,68 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		// error
 		return 1;
 	}
+	int left = f->rec->func == osc_expr_lreduce;
+	char *name = left ? "lreduce" : "rreduce";
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_expr_rec *r = osc_expr_lookupFunction("apply");
-	t_osc_expr *e = osc_expr_alloc();
-	osc_expr_setRec(e, r);
-
-	int ac = 3;
-	t_osc_expr_arg *func_args[ac];  // function, arg1, arg2
-	func_args[0] = NULL;
-	osc_expr_arg_copy(func_args, f_argv);
-	osc_expr_appendArg(e, *func_args);
-	for(int i = 1; i < ac; i++){
-		func_args[i] = osc_expr_arg_alloc();
-		osc_expr_appendArg(e, func_args[i]);
-	}
 
 	t_osc_atom_ar_u *args = NULL;
-	t_osc_expr_arg *a = f_argv->next;
-	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-		for(int i = 0; i < ac; i++){
-			if(func_args[i]){
-				osc_expr_arg_free(func_args[i]);
-			}
+	t_osc_atom_ar_u *acc = NULL;
+	int err = osc_expr_evalSpecArg(f_argv->next, lexenv, len, oscbndl, &args, context, name);
+	if(!err && f_argc == 3){
+		err = osc_expr_evalSpecArg(f_argv->next->next, lexenv, len, oscbndl, &acc, context, name);
+		if(!err && osc_atom_array_u_getLen(acc) < 1){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "the starting value of %s() is empty", name);
+			err = 1;
 		}
-		e->argv = NULL;
-		e->argc = 0;
-		osc_expr_free(e);
-		return err;
 	}
 	int count = osc_atom_array_u_getLen(args);
-
-	int arg0 = 1;
-	int arg1 = 2;
-	int delta = 1;
-	int start = 0;
-	if(f->rec->func == osc_expr_rreduce){
-		arg0 = 2;
-		arg1 = 1;
-		delta = -1;
-		start = count - 1;
+	int i = 0;
+	if(!err && f_argc == 2){
+		if(count > 0){
+			acc = osc_expr_listOfAtom(osc_atom_array_u_get(args, left ? 0 : count - 1));
+			i = 1;
+		}else{
+			acc = osc_atom_array_u_alloc(0);
+		}
 	}
 
-	if(count == 0){
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-		if(args){
-			osc_atom_array_u_free(args);
+	t_osc_expr *e = osc_expr_alloc();
+	osc_expr_setRec(e, osc_expr_lookupFunction("apply"));
+	t_osc_expr_arg *func_args[3] = {NULL, NULL, NULL};  // function, arg1, arg2
+	osc_expr_arg_copy(func_args, f_argv);
+	osc_expr_appendArg(e, func_args[0]);
+	func_args[1] = osc_expr_arg_alloc();
+	osc_expr_appendArg(e, func_args[1]);
+	func_args[2] = osc_expr_arg_alloc();
+	osc_expr_appendArg(e, func_args[2]);
+
+	for(; !err && i < count; i++){
+		t_osc_expr_arg *accarg = left ? func_args[1] : func_args[2];
+		t_osc_expr_arg *elmarg = left ? func_args[2] : func_args[1];
+		// lists, because the strings among the elements are not names of parameters
+		osc_expr_arg_clear(accarg);
+		osc_expr_arg_setList(accarg, osc_expr_listOfAtom(osc_atom_array_u_get(acc, 0)));
+		osc_expr_arg_clear(elmarg);
+		osc_expr_arg_setList(elmarg, osc_expr_listOfAtom(osc_atom_array_u_get(args, left ? i : count - 1 - i)));
+		osc_atom_array_u_free(acc);
+		acc = NULL;
+		err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &acc, context);
+		if(!err && osc_atom_array_u_getLen(acc) < 1 && i + 1 < count){
+			osc_error(context, OSC_ERR_EXPR_EVAL, "the function passed to %s() did not return a value", name);
+			err = 1;
 		}
-	}else if(count == 1 && f_argc == 2){
-		*out = args;
-	}else{
-		t_osc_atom_ar_u *output = NULL;
-		if(f_argc == 3){
-			t_osc_atom_ar_u *sc = NULL;
-			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
-			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-				if(args){
-					osc_atom_array_u_free(args);
-				}
-				for(int i = 0; i < ac; i++){
-					if(func_args[i]){
-						osc_expr_arg_free(func_args[i]);
-					}
-				}
-				e->argv = NULL;
-				e->argc = 0;
-				osc_expr_free(e);
-				return err;
-			}
-			if(sc){
-				t_osc_atom_u *acopy = NULL;
-				osc_atom_u_copyInto(&acopy, osc_atom_array_u_get(sc, 0));
-				osc_expr_arg_setOSCAtom(func_args[arg0], acopy);
-				if(sc){
-					osc_atom_array_u_free(sc);
-				}
-			}else{
-				//error
-				return 1;
-			}
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}else{
-			osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(args, start));
-			start += delta;
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-
-		for(int i = start; delta > 0 ? i < count : i >= 0; i += delta){
-			t_osc_atom_u *copy1 = NULL;
-			t_osc_atom_u *copy2 = NULL;
-			osc_atom_u_copyInto(&copy1, osc_atom_array_u_get(output, 0));
-			osc_atom_u_copyInto(&copy2, osc_atom_array_u_get(args, i));
-			osc_expr_arg_setOSCAtom(func_args[arg0], copy1);
-			osc_expr_arg_setOSCAtom(func_args[arg1], copy2);
-			osc_atom_array_u_free(output);
-			output = NULL;
-			osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-			osc_expr_arg_clear(func_args[arg0]);
-			osc_expr_arg_clear(func_args[arg1]);
-		}
-		*out = output;
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-	}
-
-	e->argv = NULL;
-	e->argc = 0;
+	}
 	osc_expr_free(e);
-
-	if(func_args[0]){
-		osc_expr_arg_free(func_args[0]);
+	if(args){
+		osc_atom_array_u_free(args);
 	}
-	for(int i = 1; i < ac; i++){
-		if(func_args[i]){
-			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
-			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
-			osc_mem_free(func_args[i]);
+	if(err){
+		if(acc){
+			osc_atom_array_u_free(acc);
 		}
+		return err;
 	}
+	*out = acc;
 	return 0;
 }
 
-- 
2.43.0


From 8c451901957a169373b2199b3258a9776f563ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 114/169] fix: assign frees the target of a failed assignment,
 and does not take an expression for an address

---
 osc_expr.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 6dc287c..eabb128 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -755,7 +755,7 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 				if(!strcmp(osc_expr_rec_getName(r), "value")){
 					t_osc_expr_arg *value_args = osc_expr_getArgs(e);
 					if(value_args && osc_expr_arg_getType(value_args) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
-						err = osc_expr_evalArgInLexEnv(value_args, lexenv, len, oscbndl, &address_ar, context);
+						osc_expr_evalArgInLexEnv(value_args, lexenv, len, oscbndl, &address_ar, context);
 						// don't report error--we'll try again below
 					}
 				}
@@ -764,11 +764,15 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 		if(!address_ar){
 			err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &address_ar, context);
 		}
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "=");
+		if(err){
+			// an error in an expression has already been reported
+			if(address_ar){
+				osc_atom_array_u_free(address_ar);
+			}
 			return err;
 		}
 		if(!address_ar){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to assign() should resolve to an OSC address");
 			return 1;
 		}
 		t_osc_atom_u *address_atom = osc_atom_array_u_get(address_ar, 0);
@@ -784,6 +788,7 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     t_osc_err err;
 	if((err = osc_error_validateAddress(address))){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign() must be an OSC address.");		
+		osc_mem_free(address);
 		return err;
 	}
 
-- 
2.43.0


From 128b28729fe89de53bc97255a1af97a4891b2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 115/169] fix: assigning a function is an error, it would make
 a message of unknown type

---
 osc_expr.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index eabb128..5fcf657 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -820,6 +820,10 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 		}
         
 		osc_message_u_free(mm);
+		if(*out){
+			osc_atom_array_u_free(*out);
+			*out = NULL;
+		}
 		return ret;
 	}
     
@@ -829,6 +833,16 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     {
 		t_osc_atom_u *cpy = NULL;
 		osc_atom_u_copyInto(&cpy, osc_atom_array_u_get(*out, i));
+		if(osc_atom_u_getTypetag(cpy) == 'r'){
+			// it belongs to the expression, and no message can hold it
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "a function can't be assigned to %s", address);
+			osc_atom_u_free(cpy);
+			osc_mem_free(address);
+			osc_message_u_free(mm);
+			osc_atom_array_u_free(*out);
+			*out = NULL;
+			return 1;
+		}
 		osc_message_u_appendAtom(mm, cpy);
 	}
 
-- 
2.43.0


From 791c1430d773aac4979e2219285f440f840d90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 116/169] fix: assignment to an index sees assignments made by
 its index and value, stops at their errors and frees what it made

---
 osc_expr.c | 166 +++++++++++++++++++++--------------------------------
 1 file changed, 67 insertions(+), 99 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5fcf657..bbe3897 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -903,114 +903,82 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
-	if(!msg_ar){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index =");
+	if(osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign_to_index() must be an OSC address.");
 		return 1;
 	}
+	char *address = osc_expr_arg_getOSCAddress(f_argv);
 
 	t_osc_atom_ar_u *indexes = NULL;
 	t_osc_atom_ar_u *data = NULL;
-    t_osc_err err = 0;
-    // above needed to allow goto, which you probably hate, sorry
 	t_osc_msg_u *mm = osc_message_u_alloc();
-    {
-        osc_message_u_setAddress(mm, f_argv->arg.osc_address);
-
-        // get data at target address
-        err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, out, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
-            goto bail;
-        }
-        int outlen = osc_atom_array_u_getLen(*out);
-
-        // get index(es)
-        err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &indexes, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
-            // osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "assign to index 2");
-            goto bail;
-        }
-        int nindexes = osc_atom_array_u_getLen(indexes);
-        // get data
-        err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &data, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            //osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assign to index 3");
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
-
-            goto bail;
-        }
-        int ndata = osc_atom_array_u_getLen(data);
-        if(nindexes == 0 || ndata == 0){
-            err = 1;
-            goto bail;
-        }else if(nindexes == 1 && ndata > 1){
-            int idx = osc_atom_u_getInt(osc_atom_array_u_get(indexes, 0));
-            if(idx >= outlen || idx < 0){
-                osc_error(context, OSC_ERR_EXPR_EVAL, "%s : assign to index %d exceeds array length %d", osc_expr_arg_getOSCAddress(f_argv), idx, outlen);
-                err = 1;
-                goto bail;
-            }
-            t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
-            osc_atom_u_copyInto(&dest, osc_atom_array_u_get(data, 0));
-        }else if(nindexes > 1 && ndata == 1){
-            int i, idx;
-            t_osc_atom_u *a = osc_atom_array_u_get(data, 0);
-            for(i = 0; i < nindexes; i++){
-                idx = osc_atom_u_getInt(osc_atom_array_u_get(indexes, i));
-                if(idx >= outlen || idx < 0){
-                    osc_error(context, OSC_ERR_EXPR_EVAL, "%s : assign to index %d exceeds array length %d", osc_expr_arg_getOSCAddress(f_argv), idx, outlen);
-                    continue;
-                }
-                t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
-                osc_atom_u_copyInto(&dest, a);
-            }
-        }else{
-            int i, idx;
-            int n = osc_atom_array_u_getLen(indexes);
-            if(osc_atom_array_u_getLen(data) < n){
-                n = osc_atom_array_u_getLen(data);
-            }
-            for(i = 0; i < n; i++){
-                idx = osc_atom_u_getInt(osc_atom_array_u_get(indexes, i));
-                if(idx >= outlen || idx < 0){
-                    osc_error(context, OSC_ERR_EXPR_EVAL, "%s : assign to index %d exceeds array length %d", osc_expr_arg_getOSCAddress(f_argv), idx, outlen);
-                    continue;
-                }
-                t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
-                osc_atom_u_copyInto(&dest, osc_atom_array_u_get(data, i));
-            }
-        }
-        int i;
-        for(i = 0; i < osc_atom_array_u_getLen(*out); i++){
-            t_osc_atom_u *cpy = NULL;
-            osc_atom_u_copyInto(&cpy, osc_atom_array_u_get(*out, i));
-            osc_message_u_appendAtom(mm, cpy);
-        }
+	osc_message_u_setAddress(mm, address);
 
-        t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
-        if(msg_ar){
-            osc_bundle_s_replaceMessage(len, len, oscbndl, osc_message_array_s_get(msg_ar, 0), osc_msg_s);
-            osc_message_array_s_free(msg_ar);
-        }else{
-            osc_bundle_s_appendMessage(len, oscbndl, osc_msg_s);
-        }
-	if(osc_msg_s){
+	// get index(es) and data before the target, since evaluating them may change the bundle
+	t_osc_err err = osc_expr_evalSpecArg(f_argv->next, lexenv, len, oscbndl, &indexes, context, "assign to index");
+	if(!err){
+		err = osc_expr_evalSpecArg(f_argv->next->next, lexenv, len, oscbndl, &data, context, "assign to index");
+	}
+	// get data at target address
+	if(!err){
+		err = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, out, context, "assign to index");
+	}
+	if(!err){
+		int outlen = osc_atom_array_u_getLen(*out);
+		int nindexes = osc_atom_array_u_getLen(indexes);
+		int ndata = osc_atom_array_u_getLen(data);
+		int n = nindexes;
+		if(ndata != 1 && ndata < n){
+			n = ndata;
+		}
+		if(n == 0){
+			osc_error(context, OSC_ERR_EXPR_EVAL, "%s : assign to index without index or value", address);
+			err = 1;
+		}
+		for(int i = 0; i < n && !err; i++){
+			int idx = osc_atom_u_getInt(osc_atom_array_u_get(indexes, i));
+			if(idx >= outlen || idx < 0){
+				osc_error(context, OSC_ERR_EXPR_EVAL, "%s : assign to index %d exceeds array length %d", address, idx, outlen);
+				if(nindexes == 1){
+					err = 1;
+				}
+				continue;
+			}
+			t_osc_atom_u *a = osc_atom_array_u_get(data, ndata == 1 ? 0 : i);
+			if(osc_atom_u_getTypetag(a) == 'r'){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "a function can't be assigned to %s", address);
+				err = 1;
+				continue;
+			}
+			t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+			osc_atom_u_copyInto(&dest, a);
+		}
+	}
+	if(!err){
+		for(int i = 0; i < osc_atom_array_u_getLen(*out); i++){
+			t_osc_atom_u *cpy = NULL;
+			osc_atom_u_copyInto(&cpy, osc_atom_array_u_get(*out, i));
+			osc_message_u_appendAtom(mm, cpy);
+		}
+		t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
+		t_osc_msg_s *m = osc_message_s_alloc();
+		// the target is bound: its value was found above
+		osc_message_s_wrap(m, osc_bundle_s_getFirstFullMatch(*len, *oscbndl, address));
+		osc_bundle_s_replaceMessage(len, len, oscbndl, m, osc_msg_s);
+		osc_message_s_free(m);
 		osc_message_s_deepFree(osc_msg_s);
+	}else if(*out){
+		osc_atom_array_u_free(*out);
+		*out = NULL;
 	}
-        err = 0;
-    }
-
-bail:
-    if (indexes)
-        osc_atom_array_u_free(indexes);
-    if (data)
-        osc_atom_array_u_free(data);
-    if (mm)
-        osc_message_u_free(mm);
-
-    return err;
+	if(indexes){
+		osc_atom_array_u_free(indexes);
+	}
+	if(data){
+		osc_atom_array_u_free(data);
+	}
+	osc_message_u_free(mm);
+	return err;
 }
 
 static int osc_expr_specFunc_if(t_osc_expr *f,
-- 
2.43.0


From 3293b4b23c8aab94de51230f2f2c62672cac2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 117/169] fix: if() treats every number other than 0 as true,
 and a test without value as an error

---
 osc_expr.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index bbe3897..087bbdb 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1024,12 +1024,21 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 	}
 
 	int test_result_len = osc_atom_array_u_getLen(argv);
+	if(test_result_len < 1){
+		osc_error(context, OSC_ERR_EXPR_EVAL, "osc_expr if(): the test has no value");
+		if(argv){
+			osc_atom_array_u_free(argv);
+		}
+		return 1;
+	}
 	t_osc_atom_ar_u *boolvec[test_result_len];
 	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
 	int outlen = 0;
 	int j = 0;
 	//for(int j = 0; j < osc_atom_array_u_getLen(argv); j++){
-		if(osc_atom_u_getInt32(osc_atom_array_u_get(argv, j))){
+		t_osc_atom_u *test = osc_atom_array_u_get(argv, j);
+		// a number that isn't 0 is true even if it is less than 1 or doesn't fit in an int32
+		if(osc_atom_u_getTypetag(test) == 's' ? osc_atom_u_getInt32(test) : osc_atom_u_getBool(test)){
 			err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, boolvec + j, context);
 			if(err){
                 if(err == OSC_ERR_EXPR_ADDRESSUNBOUND)
-- 
2.43.0


From ace5d951b8bb1038fb9cb65118aace968dd58fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 118/169] fix: emptybundle frees its argument and stops at an
 error in it

---
 osc_expr.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 087bbdb..9035ebd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1113,17 +1113,15 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 	if(!len || !oscbndl){
 		return 1;
 	}
-	*out = osc_atom_array_u_alloc(1);
-	
 	int f_argc = osc_expr_getArgCount(f);
 	if(f_argc){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
-		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-		if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+		t_osc_err r = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &ar, context, osc_expr_rec_getName(osc_expr_getRec(f)));
+		if(r){
 			return r;
 		}
+		*out = osc_atom_array_u_alloc(1);
 		if(ar && osc_atom_array_u_getLen(ar) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
@@ -1138,7 +1136,11 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		}else{
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}
+		if(ar){
+			osc_atom_array_u_free(ar);
+		}
 	}else{
+		*out = osc_atom_array_u_alloc(1);
 		if(*len == OSC_HEADER_SIZE){
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}else{
-- 
2.43.0


From d852ba61b4d09e253307e42dc17a1b52602bb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 119/169] fix: exists and bound free the value of their
 argument

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 9035ebd..1dd7bb5 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1233,10 +1233,14 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 						goto err;
 					}
 					if(address[0] != '/'){
+						osc_mem_free(address);
 						osc_atom_array_u_free(ar);
 						goto err;
 					}
 				}
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 			}
 		}
 		break;
-- 
2.43.0


From dc647c63c8c2b5cf3abd7ec1dfe2529a95d2362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 120/169] fix: getaddresses of something that can't be
 evaluated is an error

---
 osc_expr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1dd7bb5..a6d5376 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1293,7 +1293,10 @@ static int osc_expr_specFunc_getaddresses(t_osc_expr *f,
 	if(osc_expr_getArgCount(f)){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		t_osc_err err = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &ar, context, "getaddresses");
+		if(err){
+			return err;
+		}
 		if(ar){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG){
-- 
2.43.0


From 2ee9c97dcfbe92cdff2e3523a2540b8b0aed512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 121/169] fix: delete resolves parameters and frees the address

---
 osc_expr.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index a6d5376..23443c0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1359,12 +1359,16 @@ static int osc_expr_specFunc_delete(t_osc_expr *f,
 		if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 			osc_bundle_s_removeMessage(osc_expr_arg_getOSCAddress(f_argv), len, *oscbndl, 1);
 		}else if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM){
-			t_osc_atom_u *a = osc_expr_arg_getOSCAtom(f_argv);
-			if(osc_atom_u_getTypetag(a) == 's'){
-				char *st = NULL;
-				osc_atom_u_getString(a, 0, &st);
+			// the atom may be the name of a parameter
+			t_osc_atom_ar_u *ar = NULL;
+			osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+			char *st = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
+			if(st){
 				osc_bundle_s_removeMessage(st, len, *oscbndl, 1);
 			}
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 		}
 		f_argv = f_argv->next;
 	}
-- 
2.43.0


From 9c4a8c1c6118c5231b4c0cabb9aa84ae9b9b8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 122/169] fix: value of something that can't be evaluated is an
 error

---
 osc_expr.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 23443c0..bcb9b0b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1409,9 +1409,8 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
-	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
+	t_osc_err err = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &arg, context, "value");
+	if(err){
 		return err;
 	}
 	if(arg){
-- 
2.43.0


From d6b5f6ceab45bfe36286d047cb10169b497cced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 123/169] fix: eval of something without value does not take an
 expression for an address

---
 osc_expr.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index bcb9b0b..f0fc3d4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1488,9 +1488,8 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
-	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "eval");
+	t_osc_err err = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &arg, context, "eval");
+	if(err){
 		return err;
 	}
 	if(arg){
@@ -1552,13 +1551,13 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 			}
 		}
 		osc_atom_array_u_free(arg);
-	}else{
+	}else if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 		char *a = osc_expr_arg_getOSCAddress(f_argv);
-		if(a){
+		if(a && osc_expr_funcobj_ht){
 			t_osc_expr *e = osc_hashtab_lookup(osc_expr_funcobj_ht, strlen(a), a);
 			if(e){
 				t_osc_atom_ar_u *ar = NULL;
-				int ret = osc_expr_eval(f, len, oscbndl, &ar, context);
+				int ret = osc_expr_eval(e, len, oscbndl, &ar, context);
 				*out = osc_atom_array_u_alloc(1);
 
 				osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
-- 
2.43.0


From 51dce3f852699fd2ebb88230e4e82385f5ae1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 124/169] fix: settimetag frees its argument and reports an
 unbound address

---
 osc_expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f0fc3d4..5e9f5a0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1681,9 +1681,9 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
-	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
+	t_osc_err err = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &arg, context, "settimetag");
 	if(err){
-		return 1;
+		return err;
 	}
 	if(arg){
 		if(osc_atom_array_u_getLen(arg) > 0){
@@ -1691,9 +1691,11 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 			if(a){
 				t_osc_timetag t = osc_atom_u_getTimetag(a);
 				osc_bundle_s_setTimetag(*len, *oscbndl, t);
+				osc_atom_array_u_free(arg);
 				return 0;
 			}
 		}
+		osc_atom_array_u_free(arg);
 	}
 	return 1;
 }
-- 
2.43.0


From dd56051131e3a413352f6d21ff69f10d80ef5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 125/169] fix: && and || report an unbound address and free the
 operand of a failed evaluation

---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5e9f5a0..3d9f8dc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2917,7 +2917,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
-	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
+	int ret = osc_expr_evalSpecArg(f->argv, lexenv, len, oscbndl, &lhs, context, "andalso");
 	if(!lhs || ret){
 		return ret;
 	}
@@ -2934,7 +2934,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 		goto out;
 	}
 
-	ret = osc_expr_evalArgInLexEnv(f->argv->next, lexenv, len, oscbndl, &rhs, context);
+	ret = osc_expr_evalSpecArg(f->argv->next, lexenv, len, oscbndl, &rhs, context, "andalso");
 	if(!rhs || ret){
 		goto out;
 	}
@@ -2975,7 +2975,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
-	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
+	int ret = osc_expr_evalSpecArg(f->argv, lexenv, len, oscbndl, &lhs, context, "orelse");
 	if(!lhs || ret){
 		return ret;
 	}
@@ -2992,7 +2992,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 		goto out;
 	}
 
-	ret = osc_expr_evalArgInLexEnv(f->argv->next, lexenv, len, oscbndl, &rhs, context);
+	ret = osc_expr_evalSpecArg(f->argv->next, lexenv, len, oscbndl, &rhs, context, "orelse");
 	if(!rhs || ret){
 		goto out;
 	}
-- 
2.43.0


From 040899f7c599bec552049f94bd3c08d8fb691e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 126/169] fix: tokenize handles more than 64 tokens, tells ==
 from = and does not leak

---
 osc_expr.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3d9f8dc..e47893d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1978,10 +1978,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	int startcond = START_EXPNS, started = 0;
 	int ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	while(ret){
-		if(i == n){
-			n += 64;
-			osc_array_resize(*ar, n);
-		}
 		char *st = NULL;
 		switch(ret){
 		case START_EXPNS:
@@ -2028,7 +2024,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "!=";
 			break;
 		case OSC_EXPR_EQ:
-			st = "=";
+			st = "==";
 			break;
 		case OSC_EXPR_GTE:
 			st = ">=";
@@ -2061,11 +2057,15 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			//osc_atom_u_setString((t_osc_atom_u *)(((long)out) + (i * atomsize)), st);
 			osc_atom_u_setString(osc_atom_array_u_get(*ar, i), st);
 		}
-		long len = osc_atom_u_nformat(NULL, 0, osc_atom_array_u_get(*ar, i), 0);
-		char *fmt = osc_mem_alloc(len + 1);
-		osc_atom_u_nformat(fmt, len + 1, osc_atom_array_u_get(*ar, i), 0);
-		//osc_atom_u_format(osc_atom_array_u_get(*ar, i), &len, &fmt);
 		i++;
+		if(i == n){
+			// the next token needs a place before it is read
+			n += 64;
+			osc_array_resize(*ar, n);
+			for(int j = i; j < n; j++){
+				memset(osc_atom_array_u_get(*ar, j), '\0', osc_atom_u_getStructSize());
+			}
+		}
 		//yylval_param.atom = (t_osc_atom_u *)(((long)out) + (i * atomsize));
 	cont:
 		yylval_param.atom = osc_atom_array_u_get(*ar, i);
-- 
2.43.0


From 5db0dec45c165b6013ba55ee73411263a0f392ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 127/169] fix: tokenize frees its argument

---
 osc_expr.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e47893d..d97b480 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1581,26 +1581,24 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	char *expr = NULL;
 	t_osc_atom_ar_u *arg = NULL;
-	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "tokenize");
+	t_osc_err err = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &arg, context, "tokenize");
+	if(err){
 		return err;
 	}
 	if(arg){
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
-			expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
+			osc_util_strdup(&expr, osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0)));
 		}else{
 			long buflen = 0;
 			osc_atom_array_u_getStringArray(arg, &buflen, &expr, " ");
 		}
 		if(expr){
-			t_osc_err e = osc_expr_lex(expr, out);
-			if(e){
-				return e;
-			}
+			err = osc_expr_lex(expr, out);
+			osc_mem_free(expr);
 		}
+		osc_atom_array_u_free(arg);
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_compile(t_osc_expr *f,
-- 
2.43.0


From 162bdcd1977055ed9905893f657813f6506167fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 128/169] fix: reading a bundle member reports errors in its
 arguments and frees what it made

---
 osc_expr.c | 170 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 91 insertions(+), 79 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d97b480..dbe1d86 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1698,6 +1698,76 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 	return 1;
 }
 
+// a serialized copy of the bundle that is the first element of ar, or that the message named there starts with
+static t_osc_err osc_expr_nestedBundle(t_osc_atom_ar_u *ar,
+				       t_osc_expr_lexenv *lexenv,
+				       long *len,
+				       char **oscbndl,
+				       long *nested_len,
+				       char **nested,
+				       void *context)
+{
+	t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
+	t_osc_atom_ar_u *contents = NULL;
+	t_osc_err err = OSC_ERR_NONE;
+	if(osc_atom_u_getTypetag(a) == 's'){
+		t_osc_expr_arg arg;
+		memset(&arg, '\0', sizeof(arg));
+		osc_expr_arg_setOSCAddress(&arg, osc_atom_u_getStringPtr(a));
+		err = osc_expr_evalSpecArg(&arg, lexenv, len, oscbndl, &contents, context, ".");
+		if(err){
+			return err;
+		}
+		a = osc_atom_array_u_get(contents, 0);
+	}
+	if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
+		t_osc_bndl_u *b = osc_atom_u_getBndl(a);
+		*nested_len = osc_bundle_u_nserialize(NULL, 0, b);
+		*nested = osc_mem_alloc(*nested_len);
+		osc_bundle_u_nserialize(*nested, *nested_len, b);
+	}else{
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "there is no bundle to look for a member in");
+		err = 1;
+	}
+	if(contents){
+		osc_atom_array_u_free(contents);
+	}
+	return err;
+}
+
+// the address of a member of a bundle: an address, or a string that is one
+static t_osc_err osc_expr_memberAddress(t_osc_expr_arg *member,
+					t_osc_expr_lexenv *lexenv,
+					long *len,
+					char **oscbndl,
+					char **address,
+					void *context)
+{
+	if(osc_expr_arg_getType(member) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_util_strdup(address, osc_expr_arg_getOSCAddress(member));
+		return OSC_ERR_NONE;
+	}
+	if(osc_expr_arg_getType(member) == OSC_EXPR_ARG_TYPE_EXPR && osc_expr_arg_getExpr(member)->rec->func == osc_expr_value){
+		// like assign(), this wants one level of resolution less
+		member = osc_expr_getArgs(osc_expr_arg_getExpr(member));
+	}
+	t_osc_atom_ar_u *ar = NULL;
+	t_osc_err err = osc_expr_evalSpecArg(member, lexenv, len, oscbndl, &ar, context, ".");
+	if(err){
+		return err;
+	}
+	if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) == 's'){
+		osc_util_strdup(address, osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0)));
+	}else{
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the member of a bundle should be an OSC address");
+		err = 1;
+	}
+	if(ar){
+		osc_atom_array_u_free(ar);
+	}
+	return err;
+}
+
 static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 					     t_osc_expr_lexenv *lexenv,
 					     long *len,
@@ -1707,90 +1777,32 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
-	osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
-	if(!arg1){
-		return 1;
-	}
 	long bndl_len_s = 0;
 	char *bndl_s = NULL;
-	if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == 's'){
-		char *string = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg1, 0));
-		t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(*len, *oscbndl, string, 1);
-		if(msgar){
-			t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
-			t_osc_atom_s *a = NULL;
-			osc_message_s_getArg(m, 0, &a);
-			//char tmp[osc_bundle_s_getStructSize()];
-			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
-			osc_message_array_s_free(msgar);
-		}else{
-			return OSC_ERR_EXPR_ADDRESSUNBOUND;
-		}
-	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
-		t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0));
-		bndl_len_s = osc_bundle_u_nserialize(NULL, 0, b);
-		bndl_s = osc_mem_alloc(bndl_len_s);
-		osc_bundle_u_nserialize(bndl_s, bndl_len_s, b);
-	}//else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) ==
-
-	int ret = 0;
-	if(bndl_len_s && bndl_s){
-	/* if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){ */
-	/* 	t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0)); */
-	/* 	if(b){ */
-	/* 		long l = 0; */
-	/* 		char *p = NULL; */
-	/* 		osc_bundle_u_serialize(b, &l, &p); */
-		//if(p){
-
-		if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_EXPR){
-			t_osc_atom_ar_u *a = NULL;
-			t_osc_expr *e = osc_expr_arg_getExpr(f_argv->next);
-			if(e->rec->func == osc_expr_value){
-				ret = osc_expr_evalArgInLexEnv(osc_expr_getArgs(e), lexenv, len, oscbndl, &a, context);
-			}else{
-				ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
-			}
-			if(a){
-				t_osc_expr_arg *arg = osc_expr_arg_alloc();
-				char *st = NULL;
-				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
-				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
-				osc_atom_array_u_free(a);
-				osc_expr_arg_free(arg);
-			}else{
-				return ret;
-			}
-		}else if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_STRING ||
-			 osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_ATOM){
-			osc_expr_arg_setType(f_argv->next, OSC_EXPR_ARG_TYPE_ATOM);
-			t_osc_atom_ar_u *a = NULL;
-			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
-			if(a){
-				t_osc_expr_arg *arg = osc_expr_arg_alloc();
-				char *st = NULL;
-				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
-				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
-				osc_atom_array_u_free(a);
-				osc_expr_arg_free(arg);
-			}else{
-				return ret;
-			}
-		}else{
-			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
-		}
+	char *address = NULL;
+	t_osc_err ret = osc_expr_evalSpecArg(f_argv, lexenv, len, oscbndl, &arg1, context, ".");
+	if(!ret){
+		ret = osc_expr_nestedBundle(arg1, lexenv, len, oscbndl, &bndl_len_s, &bndl_s, context);
+	}
+	if(!ret){
+		ret = osc_expr_memberAddress(f_argv->next, lexenv, len, oscbndl, &address, context);
+	}
+	if(!ret){
+		t_osc_expr_arg member;
+		memset(&member, '\0', sizeof(member));
+		osc_expr_arg_setOSCAddress(&member, address);
+		ret = osc_expr_evalSpecArg(&member, lexenv, &bndl_len_s, &bndl_s, out, context, ".");
+	}
+	if(address){
+		osc_mem_free(address);
+	}
+	if(bndl_s){
 		osc_mem_free(bndl_s);
+	}
+	if(arg1){
 		osc_atom_array_u_free(arg1);
-				return ret;
 	}
-	return 1;
+	return ret;
 }
 
 static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
-- 
2.43.0


From b0ff6d9650e508cbaa77b33057dc42a9b97225a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 129/169] fix: assignment to a bundle member sees the
 assignments of its value, changes nothing when it fails and frees what it
 made

---
 osc_expr.c | 224 +++++++++++++++++++++--------------------------------
 1 file changed, 88 insertions(+), 136 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index dbe1d86..3f8f2b9 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1812,157 +1812,109 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 						  t_osc_atom_ar_u **out,
 						  void *context )
 {
-	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_atom_ar_u *arg1 = NULL;
-
-	t_osc_err error = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
-	if(!arg1){
-		// if arg1 is unbound, create a bundle with message arg2 : arg3
-		if( error == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_getArgCount(f) > 2 &&
-		    f_argv->type == OSC_EXPR_ARG_TYPE_OSCADDRESS && f_argv->next->type == OSC_EXPR_ARG_TYPE_OSCADDRESS ){
-			t_osc_msg_u *m = osc_message_u_allocWithAddress( f_argv->arg.osc_address );
-			t_osc_bundle_u * b = osc_bundle_u_alloc();
-			osc_message_u_appendBndl_u(m, b);
-            
-			osc_bundle_s_appendMessage(len, oscbndl, osc_message_u_serialize(m) );
-            
-			arg1 = osc_message_u_getArgArrayCopy(m);
-            
-		}else{
-			return 1;
-		}
+	if(!len || !oscbndl){
+		return 1;
 	}
-	int free_arg1 = 1;
+	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
+	t_osc_atom_ar_u *arg1 = NULL, *val = NULL;
 	long bndl_len_s = 0;
 	char *bndl_s = NULL;
-	if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == 's'){
-		char *string = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg1, 0));
-		t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(*len, *oscbndl, string, 1);
-		if(msgar){
-			t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
-			t_osc_atom_s *a = NULL;
-			osc_message_s_getArg(m, 0, &a);
-			//char tmp[osc_bundle_s_getStructSize()];
-			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
-			osc_message_array_s_free(msgar);
-		}
-	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
-		t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0));
-		bndl_len_s = osc_bundle_u_nserialize(NULL, 0, b);
-		bndl_s = osc_mem_alloc(bndl_len_s);
-		osc_bundle_u_nserialize(bndl_s, bndl_len_s, b);
-	}
-
-	if(bndl_len_s && bndl_s){
-		t_osc_expr *assign = osc_expr_alloc();
-		t_osc_expr_rec *r = osc_expr_lookupFunction("assign");
-		osc_expr_setRec(assign, r);
+	char *address = NULL;
 
-		t_osc_atom_array_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
-		int ret = 0;
-		if(!ar){
-			goto cleanup;
-		}
-		t_osc_expr_arg *target = NULL;
-		osc_expr_arg_copy(&target, f_argv->next);
-		t_osc_expr_arg *val = osc_expr_arg_alloc();
-		if(osc_atom_array_u_getLen(ar) == 1){
-			t_osc_atom_u *copy = osc_atom_u_alloc();
-			osc_atom_u_copyInto(&copy, osc_atom_array_u_get(ar, 0));
-			osc_expr_arg_setOSCAtom(val, copy);
-			osc_atom_array_u_free(ar);
-		}else{
-			t_osc_atom_ar_u *copy = osc_atom_array_u_copy(ar);
-			osc_expr_arg_setList(val, copy);
-			osc_atom_array_u_free(ar);
+	// the value comes first, since evaluating it may change the bundle
+	t_osc_err ret = osc_expr_evalSpecArg(f_argv->next->next, lexenv, len, oscbndl, &val, context, "=");
+	if(!ret){
+		ret = osc_expr_memberAddress(f_argv->next, lexenv, len, oscbndl, &address, context);
+	}
+	if(!ret){
+		ret = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+		if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+			// if arg1 is unbound, create a bundle with message arg2 : arg3
+			arg1 = osc_atom_array_u_alloc(1);
+			osc_atom_u_setBndl_u(osc_atom_array_u_get(arg1, 0), osc_bundle_u_alloc());
+			ret = OSC_ERR_NONE;
 		}
-		osc_expr_arg_append(target, val);
+	}
+	if(!ret){
+		ret = osc_expr_nestedBundle(arg1, lexenv, len, oscbndl, &bndl_len_s, &bndl_s, context);
+	}
+	if(!ret){
+		// assign to the member
+		t_osc_expr *assign = osc_expr_alloc();
+		osc_expr_setRec(assign, osc_expr_lookupFunction("assign"));
+		t_osc_expr_arg *target = osc_expr_arg_alloc();
+		osc_expr_arg_setOSCAddress(target, address);
+		address = NULL;
+		t_osc_expr_arg *value = osc_expr_arg_alloc();
+		osc_expr_arg_setList(value, val ? val : osc_atom_array_u_alloc(0));
+		val = NULL;
+		osc_expr_arg_append(target, value);
 		osc_expr_setArg(assign, target);
 		ret = osc_expr_specFunc_assign(assign, lexenv, &bndl_len_s, &bndl_s, out, context);
-		osc_expr_arg_freeList(target);
-		target = NULL;
-		assign->argv = NULL;
-		assign->argc = 0;
+		osc_expr_free(assign);
 		if(*out){
 			osc_atom_array_u_free(*out);
 			*out = NULL;
 		}
-
-		if(ret){
-			// cleanup
-			//return ret;
-			goto cleanup;
-		}
-
-		if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_EXPR){
-			t_osc_expr *e = osc_expr_arg_getExpr(f_argv);
-			t_osc_expr_rec *r = osc_expr_getRec(e);
-			if(osc_expr_rec_getFunction(r) == osc_expr_nth){
-				osc_expr_setRec(assign, osc_expr_lookupFunction("assign_to_index"));
-				t_osc_expr_arg *nth_args = osc_expr_getArgs(e);
-				osc_expr_arg_copy(&target, nth_args);
-				t_osc_expr_arg *nth_arg2 = NULL;
-				osc_expr_arg_copy(&nth_arg2, osc_expr_arg_next(nth_args));
-				osc_expr_arg_append(target, nth_arg2);
-				t_osc_atom_u *a = osc_atom_u_alloc();
-				osc_atom_u_setBndl_s(a, bndl_len_s, bndl_s);
-				t_osc_expr_arg *arg_bndl = osc_expr_arg_alloc();
-				osc_expr_arg_setOSCAtom(arg_bndl, a);
-				osc_expr_arg_append(target, arg_bndl);
-				osc_expr_setArg(assign, target);
-				*out = NULL;
-				ret = osc_expr_specFunc_assigntoindex(assign, lexenv, len, oscbndl, out, context);
-			}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == 's'){
-				char *target_address = NULL;
-				osc_util_strdup(&target_address, osc_atom_u_getStringPtr(osc_atom_array_u_get(arg1, 0)));
-				t_osc_expr_arg *target = osc_expr_arg_alloc();
-				osc_expr_arg_setOSCAddress(target, target_address);
-
-				t_osc_atom_u *value_atom = osc_atom_u_alloc();
-				osc_atom_u_setBndl(value_atom, bndl_len_s, bndl_s);
-				t_osc_expr_arg *value = osc_expr_arg_alloc();
-				osc_expr_arg_setOSCAtom(value, value_atom);
-
-				osc_expr_arg_append(target, value);
-				osc_expr_setArg(assign, target);
-				*out = NULL;
-				ret = osc_expr_specFunc_assign(assign, lexenv, len, oscbndl, out, context);
-			}else{
-				osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to assigntobundlemember() is an expression that is not assignable");
-				ret = 1;
-			}
-		}else{
-			osc_atom_u_setBndl_s(osc_atom_array_u_get(arg1, 0), bndl_len_s, bndl_s);
-			t_osc_expr_arg *arg_bndl = osc_expr_arg_alloc();
-			osc_expr_arg_setList(arg_bndl, arg1);
-			free_arg1 = 0;
+	}
+	if(!ret){
+		// put the bundle back where it came from
+		t_osc_expr *assign = osc_expr_alloc();
+		osc_expr_setRec(assign, osc_expr_lookupFunction("assign"));
+		t_osc_expr_arg *target = NULL;
+		t_osc_expr_arg *value = osc_expr_arg_alloc();
+		t_osc_expr *e = osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_EXPR ? osc_expr_arg_getExpr(f_argv) : NULL;
+		t_osc_atom_u *a = osc_atom_array_u_get(arg1, 0);
+		if(e && osc_expr_rec_getFunction(osc_expr_getRec(e)) == osc_expr_nth){
+			// an element of a list
+			osc_expr_setRec(assign, osc_expr_lookupFunction("assign_to_index"));
+			osc_expr_arg_copy(&target, osc_expr_getArgs(e));
+			t_osc_expr_arg *index = NULL;
+			osc_expr_arg_copy(&index, osc_expr_arg_next(osc_expr_getArgs(e)));
+			osc_expr_arg_append(target, index);
+			t_osc_atom_u *b = osc_atom_u_alloc();
+			osc_atom_u_setBndl_s(b, bndl_len_s, bndl_s);
+			osc_expr_arg_setOSCAtom(value, b);
+		}else if(osc_atom_u_getTypetag(a) == 's'){
+			// the message with that address
+			char *target_address = NULL;
+			osc_util_strdup(&target_address, osc_atom_u_getStringPtr(a));
+			target = osc_expr_arg_alloc();
+			osc_expr_arg_setOSCAddress(target, target_address);
+			t_osc_atom_u *b = osc_atom_u_alloc();
+			osc_atom_u_setBndl_s(b, bndl_len_s, bndl_s);
+			osc_expr_arg_setOSCAtom(value, b);
+		}else if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 			osc_expr_arg_copy(&target, f_argv);
-			osc_expr_arg_append(target, arg_bndl);
-			osc_expr_setArg(assign, target);
-			*out = NULL;
-			ret = osc_expr_specFunc_assign(assign, lexenv, len, oscbndl, out, context);
-		}
-
-	cleanup:
-		if(arg1 && free_arg1){
-			osc_atom_array_u_free(arg1);
-		}
-		if(assign){
-			osc_expr_free(assign);
+			osc_atom_u_setBndl_s(a, bndl_len_s, bndl_s);
+			osc_expr_arg_setList(value, arg1);
+			arg1 = NULL;
+		}else{
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to assigntobundlemember() is an expression that is not assignable");
+			ret = 1;
 		}
-		if(bndl_s){
-			osc_mem_free(bndl_s);
+		if(target){
+			osc_expr_arg_append(target, value);
+			osc_expr_setArg(assign, target);
+			ret = osc_expr_evalInLexEnv(assign, lexenv, len, oscbndl, out, context);
+		}else{
+			osc_expr_arg_free(value);
 		}
-		return ret;
+		osc_expr_free(assign);
 	}
-
-	return 1;
+	if(address){
+		osc_mem_free(address);
+	}
+	if(bndl_s){
+		osc_mem_free(bndl_s);
+	}
+	if(val){
+		osc_atom_array_u_free(val);
+	}
+	if(arg1){
+		osc_atom_array_u_free(arg1);
+	}
+	return ret;
 }
 
 int osc_expr_scanner_lex (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner, int alloc_atom, long *buflen, char **buf, int startcond, int *started);
-- 
2.43.0


From 317873bb4ae63f427c63ed944ec74c87040dedad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 130/169] fix: copying a list argument copies the list

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 3f8f2b9..538d9b3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6954,6 +6954,9 @@ t_osc_err osc_expr_arg_copy(t_osc_expr_arg **dest, t_osc_expr_arg *src)
 			(*dest)->arg.func = copy;
 		}
 		break;
+	case OSC_EXPR_ARG_TYPE_LIST:
+		copy->arg.list = osc_atom_array_u_copy(src->arg.list);
+		break;
 	}
 	return OSC_ERR_NONE;
 }
-- 
2.43.0


From e571301b5a68aa6051e2b52b1faf9cd057c3b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:32 +0000
Subject: [PATCH 131/169] fix: apply checks the number of arguments of the
 function it calls

---
 osc_expr.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 538d9b3..1b2e210 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -401,13 +401,17 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			return 1;
 		}
 		// arity check
+		int nparams = osc_expr_rec_getNumRequiredArgs(r);
+		if(osc_expr_getArgCount(f) - 1 < nparams){
+			osc_expr_err_argnum(context, nparams, osc_expr_getArgCount(f) - 1, 1, "lambda");
+			return 1;
+		}
 		t_osc_expr_lexenv *lexenv_copy = NULL;
 		if(lexenv){
 			osc_expr_copyLexenv(&lexenv_copy, lexenv);
 		}else{
 			lexenv_copy = osc_expr_makeLexenv();
 		}
-		int nparams = osc_expr_rec_getNumRequiredArgs(r);
 		char **params = osc_expr_rec_getRequiredArgsNames(r);
 		t_osc_expr_arg *arg = f_argv->next;
 		for(int i = 0; (i < nparams) && arg; i++){
@@ -537,6 +541,14 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
 			return 1;
 		}
+		// the parser checked the arguments of apply(), not those of the function
+		int nargs = osc_expr_getArgCount(f) - 1;
+		int nrequired = osc_expr_rec_getNumRequiredArgs(r);
+		int noptional = osc_expr_rec_getNumOptionalArgs(r);
+		if(nargs < nrequired || (noptional >= 0 && nargs > nrequired + noptional)){
+			osc_expr_err_argnum(context, nrequired, nargs, noptional != 0, osc_expr_rec_getName(r));
+			return 1;
+		}
 		t_osc_expr *e = osc_expr_alloc();
 		osc_expr_setRec(e, r);
 		osc_expr_setArg(e, f_argv->next);
-- 
2.43.0


From 790f70b21964360c74747753a23640d229ffb4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:28 +0000
Subject: [PATCH 132/169] fix: the first arguments appended or prepended to an
 expression are all counted

---
 osc_expr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1b2e210..f2ca3da 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6763,8 +6763,7 @@ void osc_expr_prependArg(t_osc_expr *e, t_osc_expr_arg *a)
 {
 	if(e){
 		if(!(e->argv)){
-			e->argv = a;
-			e->argc = 1;
+			osc_expr_setArg(e, a);
 		}else{
 			t_osc_expr_arg *aa = a;
 			t_osc_expr_arg *last = aa;
@@ -6787,8 +6786,7 @@ void osc_expr_appendArg(t_osc_expr *e, t_osc_expr_arg *a)
 {
 	if(e){
 		if(!(e->argv)){
-			e->argv = a;
-			e->argc = 1;
+			osc_expr_setArg(e, a);
 		}else{
 			t_osc_expr_arg *aa = e->argv;
 			t_osc_expr_arg *last = aa;
-- 
2.43.0


From 88f203c00a1e7883ee21e6647be92900856ab6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:46 +0000
Subject: [PATCH 133/169] fix: a cleared value has no type, rather than the
 type of what it no longer holds

---
 osc_atom_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 1ee94a9..f788538 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -127,6 +127,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
         osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
+	a->typetag = 0;
 	a->alloc = 0;
 }
 
-- 
2.43.0


From 0f10ef3903cf95f81d3c49ccc256eaf92c528a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:18 +0000
Subject: [PATCH 134/169] fix: an error report's file and function name are
 text, not a format, and may be of any length

---
 osc_error.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 70d57a5..6d5bbb1 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -53,29 +53,27 @@ int osc_error_handler(void *context,
         
 		int buflen = MAX_ERR_STRING_LEN;
 		char buf[buflen];
-		char *pos = buf;
+		int pos = 0;
+		*buf = '\0';
 		if(filename){
-			pos += snprintf(pos, buflen, "%s:\n", filename);
+			pos += snprintf(buf, buflen, "%s:\n", filename);
 		}
-		if(functionname){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s(): ", functionname);
+		if(functionname && pos < buflen){
+			pos += snprintf(buf + pos, buflen - pos, "%s(): ", functionname);
 		}
-		if(linenum > 0){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%d: ", linenum);
+		if(linenum > 0 && pos < buflen){
+			pos += snprintf(buf + pos, buflen - pos, "%d: ", linenum);
 		}
-		if(errorcode){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s: \n", osc_error_string(errorcode));
+		if(errorcode && pos < buflen){
+			pos += snprintf(buf + pos, buflen - pos, "%s: \n", osc_error_string(errorcode));
 		}
-		if(moreinfo_fmt){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s", moreinfo_fmt);
+		if(moreinfo_fmt && pos < buflen){
+			va_list ap;
+			va_start(ap, moreinfo_fmt);
+			vsnprintf(buf + pos, buflen - pos, moreinfo_fmt, ap);
+			va_end(ap);
 		}
-		va_list ap;
-		va_start(ap, moreinfo_fmt);
-		char newbuf[buflen];
-		pos = newbuf;
-		pos += vsnprintf(newbuf, (buflen - (pos - newbuf)), buf, ap);
-		va_end(ap);
-		return _osc_error_handler(context, newbuf);
+		return _osc_error_handler(context, buf);
 	}
 	return 0;
 }
-- 
2.43.0


From da55787b791deb57da9ccad3bd11938a0b1560c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:18 +0000
Subject: [PATCH 135/169] fix: a typetag byte above 127 has a name too

---
 osc_typetag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_typetag.c b/osc_typetag.c
index c4e88d0..8bcc508 100644
--- a/osc_typetag.c
+++ b/osc_typetag.c
@@ -33,6 +33,9 @@ static char osc_typetag_indexes[] __attribute__((unused)) = {0, 0, 0, 0, 0, 0, 0
 
 char *osc_typetag_str(int8_t tt)
 {
+	if(tt < 0){
+		return "unknown type";
+	}
 	return osc_typetag_strings[tt];
 }
 
-- 
2.43.0


From e64384807b7466d99cbd607307a6a4ba6abd87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:18 +0000
Subject: [PATCH 136/169] fix: error messages name the blob and timetag types

---
 osc_typetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_typetag.c b/osc_typetag.c
index 8bcc508..a269bec 100644
--- a/osc_typetag.c
+++ b/osc_typetag.c
@@ -24,7 +24,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_atom_u.h"
 #include "osc_atom_array_u.h"
 
-static char *osc_typetag_strings[] = {"unknown type: (decimal: 0)", "unknown type: (decimal: 1)", "unknown type: (decimal: 2)", "unknown type: (decimal: 3)", "unknown type: (decimal: 4)", "unknown type: (decimal: 5)", "unknown type: (decimal: 6)", "unknown type: (decimal: 7)", "unknown type: (decimal: 8)", "unknown type: (decimal: 9)", "unknown type: (decimal: 10)", "unknown type: (decimal: 11)", "unknown type: (decimal: 12)", "unknown type: (decimal: 13)", "unknown type: (decimal: 14)", "unknown type: (decimal: 15)", "unknown type: (decimal: 16)", "unknown type: (decimal: 17)", "unknown type: (decimal: 18)", "unknown type: (decimal: 19)", "unknown type: (decimal: 20)", "unknown type: (decimal: 21)", "unknown type: (decimal: 22)", "unknown type: (decimal: 23)", "unknown type: (decimal: 24)", "unknown type: (decimal: 25)", "unknown type: (decimal: 26)", "unknown type: (decimal: 27)", "unknown type: (decimal: 28)", "unknown type: (decimal: 29)", "unknown type: (decimal: 30)", "unknown type: (decimal: 31)", "unknown type: (decimal: 32)", "unknown type: '!'", "unknown type: '\"'", "unknown type: '#'", "unknown type: '$'", "unknown type: '\%'", "unknown type: '&'", "unknown type: '''", "unknown type: '('", "unknown type: ')'", "unknown type: '*'", "unknown type: '+'", "unknown type: ','", "unknown type: '-'", "bundle", "unknown type: '/'", "unknown type: '0'", "unknown type: '1'", "unknown type: '2'", "unknown type: '3'", "unknown type: '4'", "unknown type: '5'", "unknown type: '6'", "unknown type: '7'", "unknown type: '8'", "unknown type: '9'", "unknown type: ':'", "unknown type: ';'", "unknown type: '<'", "unknown type: '='", "unknown type: '>'", "unknown type: '?'", "unknown type: '@'", "unknown type: 'A'", "unknown type: 'B'", "unsigned int8", "unknown type: 'D'", "unknown type: 'E'", "false", "unknown type: 'G'", "unsigned int64", "unsigned int32", "unknown type: 'J'", "unknown type: 'K'", "unknown type: 'L'", "unknown type: 'M'", "null", "unknown type: 'O'", "unknown type: 'P'", "unknown type: 'Q'", "unknown type: 'R'", "unknown type: 'S'", "true", "unsigned int16", "unknown type: 'V'", "unknown type: 'W'", "unknown type: 'X'", "unknown type: 'Y'", "unknown type: 'Z'", "unknown type: '['", "unknown type: '\'", "unknown type: ']'", "unknown type: '^'", "unknown type: '_'", "unknown type: '`'", "unknown type: 'a'", "unknown type: 'b'", "int8", "float64", "unknown type: 'e'", "float32", "unknown type: 'g'", "int64", "int32", "unknown type: 'j'", "unknown type: 'k'", "unknown type: 'l'", "unknown type: 'm'", "unknown type: 'n'", "unknown type: 'o'", "unknown type: 'p'", "unknown type: 'q'", "unknown type: 'r'", "string", "unknown type: 't'", "int16", "unknown type: 'v'", "unknown type: 'w'", "unknown type: 'x'", "unknown type: 'y'", "unknown type: 'z'", "unknown type: '{'", "unknown type: '|'", "unknown type: '}'", "unknown type: '~'", "unknown type: (decimal: 127)"};
+static char *osc_typetag_strings[] = {"unknown type: (decimal: 0)", "unknown type: (decimal: 1)", "unknown type: (decimal: 2)", "unknown type: (decimal: 3)", "unknown type: (decimal: 4)", "unknown type: (decimal: 5)", "unknown type: (decimal: 6)", "unknown type: (decimal: 7)", "unknown type: (decimal: 8)", "unknown type: (decimal: 9)", "unknown type: (decimal: 10)", "unknown type: (decimal: 11)", "unknown type: (decimal: 12)", "unknown type: (decimal: 13)", "unknown type: (decimal: 14)", "unknown type: (decimal: 15)", "unknown type: (decimal: 16)", "unknown type: (decimal: 17)", "unknown type: (decimal: 18)", "unknown type: (decimal: 19)", "unknown type: (decimal: 20)", "unknown type: (decimal: 21)", "unknown type: (decimal: 22)", "unknown type: (decimal: 23)", "unknown type: (decimal: 24)", "unknown type: (decimal: 25)", "unknown type: (decimal: 26)", "unknown type: (decimal: 27)", "unknown type: (decimal: 28)", "unknown type: (decimal: 29)", "unknown type: (decimal: 30)", "unknown type: (decimal: 31)", "unknown type: (decimal: 32)", "unknown type: '!'", "unknown type: '\"'", "unknown type: '#'", "unknown type: '$'", "unknown type: '\%'", "unknown type: '&'", "unknown type: '''", "unknown type: '('", "unknown type: ')'", "unknown type: '*'", "unknown type: '+'", "unknown type: ','", "unknown type: '-'", "bundle", "unknown type: '/'", "unknown type: '0'", "unknown type: '1'", "unknown type: '2'", "unknown type: '3'", "unknown type: '4'", "unknown type: '5'", "unknown type: '6'", "unknown type: '7'", "unknown type: '8'", "unknown type: '9'", "unknown type: ':'", "unknown type: ';'", "unknown type: '<'", "unknown type: '='", "unknown type: '>'", "unknown type: '?'", "unknown type: '@'", "unknown type: 'A'", "unknown type: 'B'", "unsigned int8", "unknown type: 'D'", "unknown type: 'E'", "false", "unknown type: 'G'", "unsigned int64", "unsigned int32", "unknown type: 'J'", "unknown type: 'K'", "unknown type: 'L'", "unknown type: 'M'", "null", "unknown type: 'O'", "unknown type: 'P'", "unknown type: 'Q'", "unknown type: 'R'", "unknown type: 'S'", "true", "unsigned int16", "unknown type: 'V'", "unknown type: 'W'", "unknown type: 'X'", "unknown type: 'Y'", "unknown type: 'Z'", "unknown type: '['", "unknown type: '\\'", "unknown type: ']'", "unknown type: '^'", "unknown type: '_'", "unknown type: '`'", "unknown type: 'a'", "blob", "int8", "float64", "unknown type: 'e'", "float32", "unknown type: 'g'", "int64", "int32", "unknown type: 'j'", "unknown type: 'k'", "unknown type: 'l'", "unknown type: 'm'", "unknown type: 'n'", "unknown type: 'o'", "unknown type: 'p'", "unknown type: 'q'", "unknown type: 'r'", "string", "timetag", "int16", "unknown type: 'v'", "unknown type: 'w'", "unknown type: 'x'", "unknown type: 'y'", "unknown type: 'z'", "unknown type: '{'", "unknown type: '|'", "unknown type: '}'", "unknown type: '~'", "unknown type: (decimal: 127)"};
 
 static char osc_typetag_typetags[] = {'N', 'T', 'F', 'c', 'C', 'u', 'U', 'i', 'I', 'h', 'H', 'f', 'd', 's'};
 
-- 
2.43.0


From a7820e4e71aac6d705167ec21933b4ab9016821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:31 +0000
Subject: [PATCH 137/169] fix: typetags above 127 can be compared

---
 osc_typetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_typetag.c b/osc_typetag.c
index a269bec..008504d 100644
--- a/osc_typetag.c
+++ b/osc_typetag.c
@@ -43,7 +43,7 @@ int osc_typetag_compare(char tt1, char tt2)
 {
 	if(tt1 == tt2){
 		return 0;
-	}else if(osc_typetag_indexes[(int)tt1] < osc_typetag_indexes[(int)tt2]){
+	}else if((tt1 < 0 ? 0 : osc_typetag_indexes[(int)tt1]) < (tt2 < 0 ? 0 : osc_typetag_indexes[(int)tt2])){
 		return -1;
 	}else{
 		return 1;
-- 
2.43.0


From c2f31ecccd1b2e1286edd12de3cc0029fb841ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:31 +0000
Subject: [PATCH 138/169] fix: encoding or decoding data of no known type is an
 error, not a copy of SIZE_MAX bytes

---
 osc_mem.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_mem.c b/osc_mem.c
index ed4fef5..58d828d 100644
--- a/osc_mem.c
+++ b/osc_mem.c
@@ -256,6 +256,9 @@ int osc_mem_shouldByteswap(unsigned char typetag){
 t_osc_err osc_mem_encodeByteorder(unsigned char typetag, char *data, char **out)
 {
 	size_t size = osc_sizeof(typetag, data);
+	if(size == (size_t)-1){
+		return data ? OSC_ERR_BADTYPETAG : OSC_ERR_NULLPTR;
+	}
 	if(!osc_mem_shouldByteswap(typetag)){
 		memcpy(*out, data, size);
 		return OSC_ERR_NONE;
@@ -284,6 +287,9 @@ t_osc_err osc_mem_encodeByteorder(unsigned char typetag, char *data, char **out)
 t_osc_err osc_mem_decodeByteorder(unsigned char typetag, char *data, char **out)
 {
 	size_t size = osc_sizeof(typetag, data);
+	if(size == (size_t)-1){
+		return data ? OSC_ERR_BADTYPETAG : OSC_ERR_NULLPTR;
+	}
 	if(!osc_mem_shouldByteswap(typetag)){
 		memcpy(*out, data, size);
 		return OSC_ERR_NONE;
-- 
2.43.0


From 1040f313ce55f83faf78a20c9d0a29b2e6e058c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 139/169] fix: formatting an expression makes the buffer as
 large as the text

---
 osc_expr.c | 73 +++++++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f2ca3da..f296733 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7005,23 +7005,24 @@ void osc_expr_funcobj_dtor(char *key, void *val)
 	}
 }
 
-int osc_expr_format_r(t_osc_expr *fg, char *buf)
+// writes at most n bytes, and returns the number that a big enough buffer would have got
+long osc_expr_format_r(t_osc_expr *fg, char *buf, long n)
 {
 	if(!fg){
 		return 0;
 	}
-	char *ptr = buf;
-	ptr += sprintf(ptr, "(%s ", fg->rec->name);
+	long pos = 0;
+#define OSC_EXPR_FORMAT_PTR (pos < n ? buf + pos : NULL)
+#define OSC_EXPR_FORMAT_LEN (pos < n ? n - pos : 0)
+	pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, "(%s ", fg->rec->name);
 	t_osc_expr_arg *f_argv = fg->argv;
 	while(f_argv){
 		switch(f_argv->type){
 		case OSC_EXPR_ARG_TYPE_ATOM:
 			{
 				t_osc_atom_u *a = f_argv->arg.atom;
-				long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-				char buf[buflen + 1];
-				osc_atom_u_nformat(buf, buflen + 1, a, 0);
-				ptr += sprintf(ptr, "%s ", buf);
+				pos += osc_atom_u_nformat(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, a, 0);
+				pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, " ");
 			}
 			break;
 		case OSC_EXPR_ARG_TYPE_LIST:
@@ -7029,65 +7030,63 @@ int osc_expr_format_r(t_osc_expr *fg, char *buf)
 				t_osc_atom_ar_u *ar = f_argv->arg.list;
 				for(int i = 0; i < osc_atom_array_u_getLen(ar); i++){
 					t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-					long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-					char buf[buflen + 1];
-					osc_atom_u_nformat(buf, buflen + 1, a, 0);
-					ptr += sprintf(ptr, "%s ", buf);
+					pos += osc_atom_u_nformat(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, a, 0);
+					pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, " ");
 				}
 			}
 			break;
 		case OSC_EXPR_ARG_TYPE_OSCADDRESS:
-			ptr += sprintf(ptr, "%s ", f_argv->arg.osc_address);
+			pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, "%s ", f_argv->arg.osc_address);
 			break;
 		case OSC_EXPR_ARG_TYPE_EXPR:
-			ptr += osc_expr_format_r(f_argv->arg.expr, ptr);
+			pos += osc_expr_format_r(f_argv->arg.expr, OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN);
 			break;
  		case OSC_EXPR_ARG_TYPE_FUNCTION:
 			{
 				t_osc_expr_rec *r = f_argv->arg.func;
-				ptr += sprintf(ptr, "(lambda (");
+				pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, "(lambda (");
 				int numparams = osc_expr_rec_getNumRequiredArgs(r);
 				char **paramnames = osc_expr_rec_getRequiredArgsNames(r);
 				for(int i = 0; i < numparams; i++){
-					if(i < numparams - 1){
-						ptr += sprintf(ptr, "%s, ", paramnames[i]);
-					}else{
-						ptr += sprintf(ptr, "%s) ", paramnames[i]);
-					}
+					pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, i < numparams - 1 ? "%s, " : "%s) ", paramnames[i]);
 				}
 				t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 				while(e){
-					ptr += osc_expr_format_r(e, ptr);
+					pos += osc_expr_format_r(e, OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN);
 					e = osc_expr_next(e);
 				}
-				ptr += sprintf(ptr, ") ");
+				pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, ") ");
 			}
 			break;
 		}
 		f_argv = f_argv->next;
 	}
-	ptr--;
-	ptr += sprintf(ptr, ") ");
-	return ptr - buf;
+	pos--;
+	pos += snprintf(OSC_EXPR_FORMAT_PTR, OSC_EXPR_FORMAT_LEN, ") ");
+#undef OSC_EXPR_FORMAT_PTR
+#undef OSC_EXPR_FORMAT_LEN
+	return pos;
 }
 
 void osc_expr_format(t_osc_expr *fg, long *buflen, char **fmt)
 {
-	if(!(*fmt)){
-		*fmt = osc_mem_alloc(512);
-	}
-	long bufsize = 512, bufpos = 0;
+	long bufsize = 0;
 	t_osc_expr *f = fg;
 	while(f){
-		if(bufpos < 256){
-			*fmt = osc_mem_resize(*fmt, bufsize + 256);
-		}
-		if(!(*fmt)){
-			return;
-		}
-		bufsize += 256;
-		bufpos += osc_expr_format_r(f, (*fmt) + bufpos);
-		bufpos += sprintf((*fmt) + bufpos, "\n");
+		bufsize += osc_expr_format_r(f, NULL, 0) + 1;
+		f = f->next;
+	}
+	char *buf = osc_mem_resize(*fmt, bufsize + 1);
+	if(!buf){
+		return;
+	}
+	*fmt = buf;
+	*buf = '\0';
+	long bufpos = 0;
+	f = fg;
+	while(f){
+		bufpos += osc_expr_format_r(f, buf + bufpos, bufsize + 1 - bufpos);
+		bufpos += snprintf(buf + bufpos, bufsize + 1 - bufpos, "\n");
 		f = f->next;
 	}
 	*buflen = bufpos;
-- 
2.43.0


From dfaa8df90962e5b3da292584330361befe1ee9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 140/169] fix: the names of argument types are found by the
 types' own numbers; timetag has one

---
 osc_expr.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f296733..0d6726f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -63,9 +63,19 @@
 #include "osc_profile.h"
 
 //i hope i don't have to add any more ;)
-char *osc_expr_typestrings[] = {"", "number", "list", "", "string", "", "", "", "atom", "", "", "", "", "", "", "", "expression", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "OSC address", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "boolean", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "function", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "timetag"};
-
-#define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + 1 + 12 // commas, spaces, and null byte
+char *osc_expr_typestrings[] = {
+	[OSC_EXPR_ARG_TYPE_NUMBER] = "number",
+	[OSC_EXPR_ARG_TYPE_LIST] = "list",
+	[OSC_EXPR_ARG_TYPE_STRING] = "string",
+	[OSC_EXPR_ARG_TYPE_ATOM] = "atom",
+	[OSC_EXPR_ARG_TYPE_EXPR] = "expression",
+	[OSC_EXPR_ARG_TYPE_OSCADDRESS] = "OSC address",
+	[OSC_EXPR_ARG_TYPE_BOOLEAN] = "boolean",
+	[OSC_EXPR_ARG_TYPE_FUNCTION] = "function",
+	[OSC_EXPR_ARG_TYPE_TIMETAG] = "timetag",
+};
+
+#define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_FUNCTION]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_TIMETAG]) + 1 + 16 // commas, spaces, and null byte
 
 char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
 
@@ -7291,6 +7301,7 @@ void osc_expr_formatTypes(int types, char *str)
 	}
 	char *ptr = str;
 	char *fmt = "%s";
+	*ptr = '\0';
 	if(types & OSC_EXPR_ARG_TYPE_NUMBER){
 		ptr += sprintf(ptr, fmt, osc_expr_typestrings[types & OSC_EXPR_ARG_TYPE_NUMBER]);
 		fmt = ", %s";
@@ -7323,6 +7334,10 @@ void osc_expr_formatTypes(int types, char *str)
 		ptr += sprintf(ptr, fmt, osc_expr_typestrings[types & OSC_EXPR_ARG_TYPE_FUNCTION]);
 		fmt = ", %s";
 	}
+	if(types & OSC_EXPR_ARG_TYPE_TIMETAG){
+		ptr += sprintf(ptr, fmt, osc_expr_typestrings[types & OSC_EXPR_ARG_TYPE_TIMETAG]);
+		fmt = ", %s";
+	}
 }
 
 // these are for the global hashtab of compiled expressions.  may be removed or changed
-- 
2.43.0


From 7f6ebd134c55b30418f0a7f7416af6259496d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 141/169] fix: a category's name may be of any length

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0d6726f..33165b3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7181,7 +7181,7 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	if(!osc_expr_functionBundle){
 		osc_expr_makeFunctionBundle();
 	}
-	char buf[128];
+	char buf[strlen(cat) + sizeof("/doc/category")];
 	if(strncmp(cat, "/doc/category", 13)){
 		sprintf(buf, "/doc/category%s", cat);
 	}else{
-- 
2.43.0


From 4260499e8faf74089c9f7ed71d9b3da5d20180c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 142/169] fix: the list of categories has the bitwise
 functions' category

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 33165b3..bf46a2a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -77,7 +77,7 @@ char *osc_expr_typestrings[] = {
 
 #define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_FUNCTION]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_TIMETAG]) + 1 + 16 // commas, spaces, and null byte
 
-char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
+char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/bitwise", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
 
 // this gets created the first time it's needed and then it's never freed
 t_osc_bndl_u *osc_expr_functionBundle = NULL;
-- 
2.43.0


From 5085c23ee7efe4372a140b2409f3e1d1f9bed7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 143/169] fix: the documentation of nth() knows the types of
 its optional arguments

---
 osc_expr_func.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index beac1ef..e5aba5f 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1295,7 +1295,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (char *[]){"argument (list)", "index"},
 	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"additional indexes"},
-	 (int []){},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"/vector", NULL},
 	 "Get an element of a list (same as [[ ]])",
 	 osc_expr_nth,
-- 
2.43.0


From 9ab2414e41b202b78c0a82635a1f841fa83ec08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:25 +0000
Subject: [PATCH 144/169] fix: bundle() is in a category

---
 osc_expr_func.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index e5aba5f..272b0ea 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -2718,7 +2718,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (int []){},
 	 (char *[]){NULL},
 	 (int []){},
-	 (char *[]){"", NULL},
+	 (char *[]){"/core", NULL},
 	 "makes a bundle from a list of bindings",
 	 osc_expr_bundle,
 	 NULL},
-- 
2.43.0


From 3a4e922749ff8e4c15b82bc1529eefd19ca50b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:44 +0000
Subject: [PATCH 145/169] fix: comparing a string with a number for equality
 says why it fails

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index bf46a2a..8a906d6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2806,7 +2806,7 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, "==", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, "==", tt2, 2, f1, f2);
 		}
 		return 1;
@@ -2853,7 +2853,7 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, "!=", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, "!=", tt2, 2, f1, f2);
 		}
 		return 1;
-- 
2.43.0


From 70f0e44a68e6a218b54d6480814051c0018e6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:44 +0000
Subject: [PATCH 146/169] fix: && and || of something other than booleans say
 why they fail

---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8a906d6..0ae87a2 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2913,7 +2913,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 			goto out;
 		}
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "andalso: argument 1 should be a boolean, but is a %s", osc_typetag_str(lhstt));
 		ret = 1;
 		goto out;
 	}
@@ -2932,7 +2932,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 		}
 		goto out;
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "andalso: argument 2 should be a boolean, but is a %s", osc_typetag_str(rhstt));
 		ret = 1;
 		goto out;
 	}
@@ -2971,7 +2971,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 			goto out;
 		}
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "orelse: argument 1 should be a boolean, but is a %s", osc_typetag_str(lhstt));
 		ret = 1;
 		goto out;
 	}
@@ -2990,7 +2990,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 		}
 		goto out;
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "orelse: argument 2 should be a boolean, but is a %s", osc_typetag_str(rhstt));
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 3a507cd44978d82a65ea1d8fc0fa0832ee0db35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:44 +0000
Subject: [PATCH 147/169] fix: applying a number says why it fails

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0ae87a2..e6816d4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -454,7 +454,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		t_osc_expr_rec *r = NULL;
 		if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM){
 			if(osc_atom_u_getTypetag(osc_expr_arg_getOSCAtom(f_argv)) != 's'){
-				//error
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to apply() should be the name of a function");
 				return 1;
 			}
 			/*
-- 
2.43.0


From 5093e6032cbc1d7b6196f1a693149eb41a532abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:51 +0000
Subject: [PATCH 148/169] fix: functions that reject their arguments say why

---
 osc_expr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index e6816d4..1976c94 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1717,6 +1717,7 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 		}
 		osc_atom_array_u_free(arg);
 	}
+	osc_error(context, OSC_ERR_EXPR_ARGCHK, "settimetag: there is no timetag");
 	return 1;
 }
 
@@ -4370,6 +4371,7 @@ int osc_expr_cross(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		return 1;
 	}
 	if(osc_atom_array_u_getLen(*argv) != 3 || osc_atom_array_u_getLen(argv[1]) != 3){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "cross: the arguments should be lists of three numbers");
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(3);
@@ -4396,7 +4398,7 @@ int osc_expr_cross(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	case 'd':
 		return osc_expr_cross_float64(f, argc, argv, out, context);
 	default:
-		// type error
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "cross: the arguments should be lists of three numbers");
 		return 1;
 	}
 }
@@ -5061,6 +5063,7 @@ int osc_expr_prog2(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		*out = osc_atom_array_u_copy(argv[1]);
 		return 0;
 	}else{
+		osc_expr_err_argnum(context, 2, argc, 1, "prog2");
 		return 1;
 	}
 }
@@ -5253,6 +5256,7 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     if(!substr || !str){
         osc_mem_free(substr);
         osc_mem_free(str);
+        osc_error(context, OSC_ERR_EXPR_ARGCHK, "strfind: the arguments should not be empty");
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5302,6 +5306,7 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	if(!sep || !str){
 		osc_mem_free(sep);
 		osc_mem_free(str);
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "split: the arguments should not be empty");
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5405,6 +5410,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		return 1;
 	}
 	if(!OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0))) || !OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0)))){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bitand: the arguments should be integers");
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
@@ -5478,6 +5484,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		return 1;
 	}
 	if(!OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0))) || !OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0)))){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bitor: the arguments should be integers");
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
-- 
2.43.0


From 3886ed152273a39b6782eea3b228ff96e7b197b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:03 +0000
Subject: [PATCH 149/169] fix: an encoded value cell's string is padded with
 zeros, and its data has room for that

---
 osc_atom_s.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index e6b003c..34368df 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -856,11 +856,17 @@ void osc_atom_s_setString(t_osc_atom_s *a, char *v)
 	if(!a){
 		return;
 	}
+	// an encoded string is padded with zeros to a multiple of four bytes
+	size_t len = strlen(v), padded = len + 1;
+	while(padded % 4){
+		padded++;
+	}
 	if(a->data == NULL){
-		a->data = osc_mem_alloc(strlen(v) + 1);
+		a->data = osc_mem_alloc(padded);
 	}
 	a->typetag = 's';
-	strcpy(a->data, v);
+	memmove(a->data, v, len);
+	memset(a->data + len, '\0', padded - len);
 }
 
 void osc_atom_s_setTrue(t_osc_atom_s *a)
@@ -944,6 +950,13 @@ size_t osc_atom_s_sizeof(t_osc_atom_s *a)
 	if(!a){
 		return 0;
 	}
+	switch(a->typetag){
+	case 'T':
+	case 'F':
+	case 'N':
+		// these have no bytes, so there may be nothing to point at
+		return 0;
+	}
 	return osc_sizeof(a->typetag, a->data);
 }
 
-- 
2.43.0


From 3cb4f66827a0996d766596d2dcd043d0beddea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:03 +0000
Subject: [PATCH 150/169] fix: a cell given a record lets go of the value it
 held

---
 osc_atom_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index f788538..c9d344f 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1254,6 +1254,7 @@ void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
 void osc_atom_u_setRec(t_osc_atom_u *a, void *r)
 {
 	if(a){
+		osc_atom_u_clear(a);
 		a->w.rec = r;
 		a->typetag = 'r';
 	}
-- 
2.43.0


From 82ba8b156c184e8b26765bfbdb192979b7ae7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:03 +0000
Subject: [PATCH 151/169] fix: shrinking an array of values frees what the
 values held

---
 osc_atom_array_u.c | 10 ++++++++++
 osc_atom_array_u.h |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index 67d0031..5e5fd6d 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -221,6 +221,16 @@ t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_
 	return OSC_ERR_NONE;
 }
 
+// the values that no longer fit must let go of what they hold
+t_osc_err osc_atom_array_u_resize(t_osc_atom_array_u *ar, long newlen)
+{
+	long i;
+	for(i = newlen > 0 ? newlen : 0; i < osc_atom_array_u_getLen(ar); i++){
+		osc_atom_u_clear(osc_atom_array_u_get(ar, i));
+	}
+	return osc_array_resize((t_osc_array *)ar, newlen);
+}
+
 void osc_atom_array_u_set(t_osc_atom_ar_u *ar, void *ptr, long len)
 {
 	osc_array_set(ar, ptr, len, sizeof(t_osc_atom_u));
diff --git a/osc_atom_array_u.h b/osc_atom_array_u.h
index 2417715..e3cf2fb 100644
--- a/osc_atom_array_u.h
+++ b/osc_atom_array_u.h
@@ -44,7 +44,6 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar);
 #define osc_atom_array_u_getLen(ar) osc_array_getLen((ar))
 //#define osc_atom_array_u_copy(ar) osc_array_copy((ar))
 //#define osc_atom_array_u_copyInto(dest, src, offset) osc_array_copyInto((dest), (src), (offset))
-#define osc_atom_array_u_resize(ar, newlen) osc_array_resize((ar), (newlen))
 
 t_osc_err osc_atom_array_u_getDoubleArray(t_osc_atom_ar_u *array, double **out);
 t_osc_err osc_atom_array_u_getFloatArray(t_osc_atom_ar_u *array, float **out);
@@ -56,6 +55,7 @@ t_osc_err osc_atom_array_u_getBoolArray(t_osc_atom_ar_u *array, char **out);
 t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, char **out, const char *sep);
 t_osc_atom_array_u *osc_atom_array_u_copy(t_osc_atom_array_u *array);
 t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_u *src, long offset);
+t_osc_err osc_atom_array_u_resize(t_osc_atom_array_u *ar, long newlen);
 void osc_atom_array_u_set(t_osc_atom_ar_u *ar, void *ptr, long len);
 
 #ifdef __cplusplus
-- 
2.43.0


From 2d04c69b7f952f5ec9b80a18c3b92ec34504a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:03 +0000
Subject: [PATCH 152/169] fix: copies of arrays of messages and bundles own
 their elements, and resizing and freeing let go of them

---
 osc_bundle_u.c  | 29 +++++++++++++++++++++++++++--
 osc_message_u.c | 38 +++++++++++++++++++++++++-------------
 2 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index f43c809..6a9c9f6 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -719,12 +719,21 @@ t_osc_bundle_array_u *osc_bundle_array_u_alloc(long len)
 
 void osc_bundle_array_u_free(t_osc_bundle_array_u *ar)
 {
+	osc_bundle_array_u_clear(ar);
 	osc_array_free((t_osc_array *)ar);
 }
 
+static void osc_bundle_array_u_clearFrom(t_osc_bundle_array_u *ar, long first)
+{
+	long i;
+	for(i = first > 0 ? first : 0; i < osc_bundle_array_u_getLen(ar); i++){
+		osc_bundle_u_clear(osc_bundle_array_u_get(ar, i));
+	}
+}
+
 void osc_bundle_array_u_clear(t_osc_bundle_array_u *ar)
 {
-	osc_array_clear((t_osc_array *)ar);
+	osc_bundle_array_u_clearFrom(ar, 0);
 }
 
 t_osc_bndl_u *osc_bundle_array_u_get(t_osc_bundle_array_u *ar, long idx)
@@ -739,10 +748,26 @@ long osc_bundle_array_u_getLen(t_osc_bundle_array_u *ar)
 
 t_osc_bundle_array_u *osc_bundle_array_u_copy(t_osc_bundle_array_u *ar)
 {
-	return (t_osc_bundle_array_u *)osc_array_copy((t_osc_array *)ar);
+	// the bundles own their messages, so a copy of the array needs its own
+	if(!ar){
+		return NULL;
+	}
+	long i, len = osc_bundle_array_u_getLen(ar);
+	t_osc_bundle_array_u *copy = osc_bundle_array_u_alloc(len);
+	for(i = 0; i < len; i++){
+		t_osc_msg_u *m = osc_bundle_array_u_get(ar, i)->msghead;
+		while(m){
+			t_osc_msg_u *mcopy = NULL;
+			osc_message_u_deepCopy(&mcopy, m);
+			osc_bundle_u_addMsg(osc_bundle_array_u_get(copy, i), mcopy);
+			m = osc_message_u_next(m);
+		}
+	}
+	return copy;
 }
 
 t_osc_err osc_bundle_array_u_resize(t_osc_bundle_array_u *ar, long newlen)
 {
+	osc_bundle_array_u_clearFrom(ar, newlen);
 	return osc_array_resize((t_osc_array *)ar, newlen);
 }
diff --git a/osc_message_u.c b/osc_message_u.c
index 7f40d26..9bb929e 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1131,9 +1131,20 @@ t_osc_message_array_u *osc_message_array_u_alloc(long len)
 	return (t_osc_message_array_u *)ar;
 }
 
+static void osc_message_array_u_clearFrom(t_osc_msg_ar_u *ar, long first)
+{
+	long i;
+	for(i = first > 0 ? first : 0; i < osc_message_array_u_getLen(ar); i++){
+		t_osc_msg_u *m = osc_message_array_u_get(ar, i);
+		osc_message_u_clearArgs(m);
+		osc_mem_free(m->address);
+		memset(m, '\0', sizeof(t_osc_msg_u));
+	}
+}
+
 void osc_message_array_u_clear(t_osc_msg_ar_u *ar)
 {
-	osc_array_clear((t_osc_array *)ar);
+	osc_message_array_u_clearFrom(ar, 0);
 }
 
 t_osc_msg_u *osc_message_array_u_get(t_osc_msg_ar_u *ar, long idx)
@@ -1148,28 +1159,29 @@ long osc_message_array_u_getLen(t_osc_msg_ar_u *ar)
 
 t_osc_msg_ar_u *osc_message_array_u_copy(t_osc_msg_ar_u *ar)
 {
-	return (t_osc_msg_ar_u *)osc_array_copy((t_osc_array *)ar);
+	// the messages own their addresses and arguments, so a copy of the array needs its own
+	if(!ar){
+		return NULL;
+	}
+	long i, len = osc_message_array_u_getLen(ar);
+	t_osc_msg_ar_u *copy = osc_message_array_u_alloc(len);
+	for(i = 0; i < len; i++){
+		t_osc_msg_u *m = osc_message_array_u_get(copy, i);
+		osc_message_u_deepCopy(&m, osc_message_array_u_get(ar, i));
+	}
+	return copy;
 }
 
 t_osc_err osc_message_array_u_resize(t_osc_msg_ar_u *ar, long newlen)
 {
+	osc_message_array_u_clearFrom(ar, newlen);
 	return osc_array_resize((t_osc_array *)ar, newlen);
 }
 
 void osc_message_array_u_free(t_osc_msg_ar_u *ar)
 {
 	if(ar){
-		int i;
-		int n = osc_message_array_u_getLen(ar);
-		for(i = 0; i < n; i++){
-			t_osc_msg_u *m = osc_message_array_u_get(ar, i);
-			if(m){
-				osc_message_u_clearArgs(m);
-				if(m->address){
-					osc_mem_free(m->address);
-				}
-			}
-		}
+		osc_message_array_u_clearFrom(ar, 0);
 		osc_array_free((t_osc_array *)ar);
 	}
 }
-- 
2.43.0


From 6306dcae88b9ea4041c15ee8e3e052a7c3bc1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:41 +0000
Subject: [PATCH 153/169] fix: appending a chain of expressions drops all but
 the first, appending nothing crashes

---
 osc_expr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1976c94..c6b7ee5 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6679,7 +6679,7 @@ void osc_expr_copyAllLinked(t_osc_expr **dest, t_osc_expr *src)
 
 void osc_expr_appendExpr(t_osc_expr *e, t_osc_expr *expr_to_append)
 {
-	if(!e){
+	if(!e || !expr_to_append){
 		return;
 	}
 	t_osc_expr *ee = e;
@@ -6690,7 +6690,6 @@ void osc_expr_appendExpr(t_osc_expr *e, t_osc_expr *expr_to_append)
 		ee = ee->next;
 	}
 	last->next = expr_to_append;
-	expr_to_append->next = NULL;
 }
 
 void osc_expr_arg_clear(t_osc_expr_arg *a)
-- 
2.43.0


From 2e78cf6615a7f7e8d2e31ecefb5c1003b576baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:41 +0000
Subject: [PATCH 154/169] fix: an argument that was cleared still points to
 what it held

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index c6b7ee5..454b953 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6726,6 +6726,9 @@ void osc_expr_arg_clear(t_osc_expr_arg *a)
 		}
 		break;
 	}
+	// what it held is gone, so there must be nothing to free again
+	memset(&(a->arg), '\0', sizeof(a->arg));
+	a->type = 0;
 }
 
 void osc_expr_arg_free(t_osc_expr_arg *a)
-- 
2.43.0


From dd9baf0df3c056cabeb153f2a74cd83298112bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:41 +0000
Subject: [PATCH 155/169] fix: copying an expression or argument over another
 one leaks what that held

---
 osc_expr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 454b953..4a1a4dd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6635,10 +6635,14 @@ void osc_expr_copy(t_osc_expr **dest, t_osc_expr *src)
 	if(!src){
 		return;
 	}
+	if(*dest == src){
+		return;
+	}
 	if(!(*dest)){
 		*dest = osc_expr_alloc();
 	}
 	t_osc_expr *copy = *dest;
+	osc_expr_arg_freeList(copy->argv);
 	copy->rec = src->rec;
 	copy->argc = src->argc;
 	t_osc_expr_arg *arg = src->argv;
@@ -6956,11 +6960,14 @@ t_osc_err osc_expr_arg_copy(t_osc_expr_arg **dest, t_osc_expr_arg *src)
 	if(!src){
 		return OSC_ERR_NONE;
 	}
+	if(*dest == src){
+		return OSC_ERR_NONE;
+	}
 	if(!(*dest)){
 		*dest = osc_expr_arg_alloc();
 	}
 	t_osc_expr_arg *copy = *dest;
-	memset(copy, '\0', sizeof(t_osc_expr_arg));
+	osc_expr_arg_clear(copy);
 	copy->type = src->type;
 	switch(src->type){
 	case OSC_EXPR_ARG_TYPE_ATOM:
-- 
2.43.0


From 33eede66ef71ad00fdc52f6e438a36eeb84fb576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:24 +0000
Subject: [PATCH 156/169] fix: a copy of a function record lacks types and
 categories, leaks what was there before, and crashes for any number of
 arguments

---
 osc_expr_rec.c | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/osc_expr_rec.c b/osc_expr_rec.c
index 7d6d909..1a3ac3e 100644
--- a/osc_expr_rec.c
+++ b/osc_expr_rec.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "osc_expr_rec.r"
 #include "osc_expr_rec.h"
 #include "osc_expr.h"
@@ -12,11 +13,8 @@ t_osc_expr_rec *osc_expr_rec_alloc(void)
 	return r;
 }
 
-void osc_expr_rec_free(t_osc_expr_rec *r, void **extra)
+static void osc_expr_rec_clear(t_osc_expr_rec *r)
 {
-	if(!r){
-		return;
-	}
 	if(r->name){
 		osc_mem_free(r->name);
 	}
@@ -32,7 +30,7 @@ void osc_expr_rec_free(t_osc_expr_rec *r, void **extra)
 		osc_mem_free(r->required_args_names);
 	}
 	if(r->optional_args_names){
-		for(int i = 0; i < r->num_optional_args; i++){
+		for(int i = 0; i < abs(r->num_optional_args); i++){ // -1 for any number
 			if(r->optional_args_names[i]){
 				osc_mem_free(r->optional_args_names[i]);
 			}
@@ -58,6 +56,14 @@ void osc_expr_rec_free(t_osc_expr_rec *r, void **extra)
 	if(r->docstring){
 		osc_mem_free(r->docstring);
 	}
+}
+
+void osc_expr_rec_free(t_osc_expr_rec *r, void **extra)
+{
+	if(!r){
+		return;
+	}
+	osc_expr_rec_clear(r);
 	if(extra){
 		*extra = r->extra;
 	}
@@ -73,6 +79,14 @@ void osc_expr_rec_copy(t_osc_expr_rec **dest, t_osc_expr_rec *src, void (*copy_e
 		*dest = osc_expr_rec_alloc();
 	}
 	t_osc_expr_rec *c = *dest;
+	if(c == src){
+		return;
+	}
+	// nothing of what it was stays, except for extra, which belongs to the caller
+	void *extra = c->extra;
+	osc_expr_rec_clear(c);
+	memset(c, '\0', sizeof(t_osc_expr_rec));
+	c->extra = extra;
 	if(src->name){
 		int len = strlen(src->name) + 1;
 		c->name = osc_mem_alloc(len);
@@ -101,9 +115,10 @@ void osc_expr_rec_copy(t_osc_expr_rec **dest, t_osc_expr_rec *src, void (*copy_e
 		}
 	}
 	if(src->optional_args_names){
-		c->optional_args_names = (char **)osc_mem_alloc(src->num_optional_args * sizeof(char *));
-		for(int i = 0; i < src->num_optional_args; i++){
+		c->optional_args_names = (char **)osc_mem_alloc(abs(src->num_optional_args) * sizeof(char *));
+		for(int i = 0; i < abs(src->num_optional_args); i++){
 			if(!src->optional_args_names[i]){
+				c->optional_args_names[i] = NULL;
 				continue;
 			}
 			int len = strlen(src->optional_args_names[i]) + 1;
@@ -111,6 +126,23 @@ void osc_expr_rec_copy(t_osc_expr_rec **dest, t_osc_expr_rec *src, void (*copy_e
 			strncpy(c->optional_args_names[i], src->optional_args_names[i], len);
 		}
 	}
+	if(src->required_args_types){
+		c->required_args_types = (int *)osc_mem_alloc(src->num_required_args * sizeof(int));
+		for(int i = 0; i < src->num_required_args; i++){
+			// the built-in functions give types to the arguments that have names
+			int named = src->required_args_names && src->required_args_names[i];
+			c->required_args_types[i] = named ? src->required_args_types[i] : 0;
+		}
+	}
+	if(src->optional_args_types){
+		c->optional_args_types = (int *)osc_mem_alloc(abs(src->num_optional_args) * sizeof(int));
+		for(int i = 0; i < abs(src->num_optional_args); i++){
+			// the built-in functions give types to the arguments that have names
+			int named = src->optional_args_names && src->optional_args_names[i];
+			c->optional_args_types[i] = named ? src->optional_args_types[i] : 0;
+		}
+	}
+	c->categories = src->categories; // never freed
 	c->num_required_args = src->num_required_args;
 	c->num_optional_args = src->num_optional_args;
 	c->func = src->func;
-- 
2.43.0


From 64c59e8765b99ed0bdd28b1fc00a5064332bad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:24 +0000
Subject: [PATCH 157/169] fix: setting the name, signature or arguments of a
 function record again leaks the old ones

---
 osc_expr_rec.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/osc_expr_rec.c b/osc_expr_rec.c
index 1a3ac3e..7f597aa 100644
--- a/osc_expr_rec.c
+++ b/osc_expr_rec.c
@@ -159,6 +159,9 @@ void osc_expr_rec_setName(t_osc_expr_rec *r, char *name)
 	int len = strlen(name) + 1;
 	char *copy = (char *)osc_mem_alloc(len);
 	strncpy(copy, name, len);
+	if(r->name){
+		osc_mem_free(r->name);
+	}
 	r->name = copy;
 }
 
@@ -170,6 +173,9 @@ void osc_expr_rec_setSignature(t_osc_expr_rec *r, char *sig)
 	int len = strlen(sig) + 1;
 	char *copy = (char *)osc_mem_alloc(len);
 	strncpy(copy, sig, len);
+	if(r->signature){
+		osc_mem_free(r->signature);
+	}
 	r->signature = copy;
 }
 
@@ -183,6 +189,19 @@ void osc_expr_rec_setArgs(int num_args,
 	if(!args_names){
 		return;
 	}
+	if(*args_names_dest){
+		for(int i = 0; i < abs(*num_args_dest); i++){
+			if((*args_names_dest)[i]){
+				osc_mem_free((*args_names_dest)[i]);
+			}
+		}
+		osc_mem_free(*args_names_dest);
+		*args_names_dest = NULL;
+	}
+	if(*args_types_dest){
+		osc_mem_free(*args_types_dest);
+		*args_types_dest = NULL;
+	}
 	*num_args_dest = num_args;
 	if(args_names){
 		char **copy = (char **)osc_mem_alloc(num_args * sizeof(char *));
@@ -209,6 +228,9 @@ void osc_expr_rec_setRequiredArgs(t_osc_expr_rec *r,
 				  char **required_args_names,
 				  int *required_args_types)
 {
+	if(!r){
+		return;
+	}
 	osc_expr_rec_setArgs(num_required_args,
 			     required_args_names,
 			     required_args_types,
@@ -222,6 +244,9 @@ void osc_expr_rec_setOptionalArgs(t_osc_expr_rec *r,
 				  char **optional_args_names,
 				  int *optional_args_types)
 {
+	if(!r){
+		return;
+	}
 	osc_expr_rec_setArgs(num_optional_args,
 			     optional_args_names,
 			     optional_args_types,
-- 
2.43.0


From a28ab41475f6b5e2423b5089cf295c262065ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:40 +0000
Subject: [PATCH 158/169] fix: a function followed by more text is rejected but
 never freed

---
 osc_expr_parser.y | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 7e59a6c..f8658db 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -242,7 +242,8 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 	char *buf = NULL;
 	int startcond = START_FUNCTION;
 	int started = 0;
-	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, f, scanner, ptr, &buflen, &buf, startcond, &started, context);
+	t_osc_expr_rec *rec = NULL;
+	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, &rec, scanner, ptr, &buflen, &buf, startcond, &started, context);
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
@@ -250,8 +251,14 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 		osc_mem_free(buf);
 	}
 	if(ret){
+		// the function may have been complete before the error
+		t_osc_expr *e = NULL;
+		osc_expr_rec_free(rec, (void **)&e);
+		osc_expr_free(e);
 		*f = NULL;
+		return ret;
 	}
+	*f = rec;
 	return ret;
 }
 
@@ -733,7 +740,10 @@ static void osc_expr_parser_freeFunction(t_osc_expr_rec *r)
 %%
 
 start: START_EXPNS expns
-       | START_FUNCTION function;
+       | START_FUNCTION function {
+		*rec = $2;
+	}
+;
 
 expns:  {
 		if(*tmp_exprstack){
@@ -884,11 +894,6 @@ function:
 		osc_expr_rec_setExtra(func, osc_expr_parser_reduce_LambdaBody($7));
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
@@ -949,11 +954,6 @@ function:
 		osc_expr_rec_setExtra(func, osc_expr_parser_reduce_LambdaBody($5));
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
@@ -993,11 +993,6 @@ function:
 		osc_expr_rec_setExtra(func, osc_expr_parser_reduce_LambdaBody($6));
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-- 
2.43.0


From 433182f4d5599df0278b03036679c04e062ccf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:39 +0000
Subject: [PATCH 159/169] fix: a dispatch table gives out an entry before its
 first one

osc_vtable_getIndexForSelector() answers -1 for a selector that isn't in
the table, and osc_vtable_getEntryByIndex() turned that into a pointer
before the array.
---
 osc_vtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 66ae6d0..abe815c 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -130,7 +130,7 @@ int osc_vtable_getNumSlots(t_osc_vtable *vtab){
 }
 
 t_osc_vtable_entry *osc_vtable_getEntryByIndex(t_osc_vtable *vtab, int index){
-	if(index >= vtab->num_entries){
+	if(index < 0 || index >= vtab->num_entries){
 		return NULL;
 	}
 	return &(vtab->entries[index]);
-- 
2.43.0


From 22aad38d3118c37e6261adf5c78701533974c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 160/169] fix: copying a message over one in a bundle drops the
 messages behind it

osc_message_u_deepCopy() cleared the links of the message it copied to,
although that message keeps its place in the bundle it belongs to.
---
 osc_message_u.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 9bb929e..93e3fe1 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -127,8 +127,6 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 		osc_message_u_appendAtom(*dest, acpy);
 	}
 	osc_msg_it_u_destroy(it);
-	(*dest)->next = NULL;
-	(*dest)->prev = NULL;
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 5c5996f95d1ff334c2a53c5a3b181c6ed88e93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:58 +0000
Subject: [PATCH 161/169] fix: osc_message_s_renameCopy: handle messages
 without a typetag string

---
 osc_message_s.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index f38d23a..5a2137c 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -151,7 +151,10 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	if(src->typetags){
+		// a message without a typetag string is just its address
+		memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	}
 	return newlen;
 }
 
-- 
2.43.0


From 25da5578622a0e82f21db4002fd3d268dcd34440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:54 +0000
Subject: [PATCH 162/169] fix: osc_message_s: cached offsets don't survive a
 wrap, aren't shared by copies and aren't leaked

---
 osc_message_s.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 5a2137c..8587221 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -46,17 +46,26 @@ size_t osc_message_s_getStructSize(void)
 	return sizeof(t_osc_msg_s);
 }
 
-void osc_message_s_free(t_osc_msg_s *m)
+static void osc_message_s_clearCache(t_osc_msg_s *m)
 {
-	if(!m){
-		return;
-	}
 	if(m->data_offset_cache){
 		osc_mem_free(m->data_offset_cache);
 	}
 	if(m->data_size_cache){
 		osc_mem_free(m->data_size_cache);
 	}
+	m->data_offset_cache = NULL;
+	m->data_size_cache = NULL;
+	m->cache_buf_size = 0;
+	m->cache_size = 0;
+}
+
+void osc_message_s_free(t_osc_msg_s *m)
+{
+	if(!m){
+		return;
+	}
+	osc_message_s_clearCache(m);
 	osc_mem_free(m);
 }
 
@@ -84,7 +93,16 @@ void osc_message_s_copy(t_osc_msg_s **dest, t_osc_msg_s *src)
 	if(!(*dest)){
 		*dest = osc_message_s_alloc();
 	}
+	if(*dest == src){
+		return;
+	}
+	osc_message_s_clearCache(*dest);
 	**dest = *src;
+	// the offset caches belong to src
+	(*dest)->data_offset_cache = NULL;
+	(*dest)->data_size_cache = NULL;
+	(*dest)->cache_buf_size = 0;
+	(*dest)->cache_size = 0;
 }
 
 t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
@@ -92,6 +110,7 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 	if(!m || !bytes){
 		return OSC_ERR_NULLPTR;
 	}
+	m->cache_size = 0; // offsets cached for other bytes don't apply
 	int32_t len = ntoh32(*((int32_t *)bytes));
 	m->size = bytes;
 	char *address = m->address = bytes + 4;
@@ -258,6 +277,7 @@ void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 t_osc_err osc_message_s_cacheDataOffsets(t_osc_msg_s *m)
 {
 	int n = osc_message_s_getArgCount(m);
+	osc_message_s_clearCache(m);
 	m->data_offset_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->data_size_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->cache_buf_size = n;
-- 
2.43.0


From d5c74ed07788126b268e08a39bd9d4b875fdb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:41 +0000
Subject: [PATCH 163/169] fix: osc_atom_u_getBlobCopy: don't write past the end
 of the caller's buffer

---
 osc_atom_u.c | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index c9d344f..18e14bc 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -932,53 +932,60 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		*buflen += 4;
 		*blob = osc_mem_alloc(*buflen);
 	}
+	if(*buflen < 4){
+		return;
+	}
 	memset(*blob, '\0', *buflen);
+	// never copy more than the buffer can take
+	int32_t room = *buflen - 4;
+	char data[8];
+	int32_t datalen = 0;
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
 		memcpy(*blob, a->w.b, bloblen + 4 < *buflen ? bloblen + 4 : *buflen);
 		break;
 	case 'c':
 	case 'C':
-		*((int32_t *)(*blob)) = hton32(1);
-		(*blob)[4] = a->w.c;
+		datalen = 1;
+		data[0] = a->w.c;
 		break;
 	case 'u':
 	case 'U':
-		*((int32_t *)(*blob)) = hton32(2);
-		*((int16_t *)((*blob) + 4)) = hton16(a->w.u);
+		datalen = 2;
+		*((int16_t *)data) = hton16(a->w.u);
 		break;
 	case 'i':
 	case 'I':
-		*((int32_t *)(*blob)) = hton32(4);
-		*((int32_t *)((*blob) + 4)) = hton32(a->w.i);
+		datalen = 4;
+		*((int32_t *)data) = hton32(a->w.i);
 		break;
 	case 'h':
 	case 'H':
 		{
 			int64_t i = a->w.h;
-			*((int32_t *)(*blob)) = hton32(8);
-			*((int64_t *)((*blob) + 4)) = hton64(i);
+			datalen = 8;
+			*((int64_t *)data) = hton64(i);
 		}
 		break;		
 	case 'f':
 		{
 			float f = a->w.f;
-			*((int32_t *)(*blob)) = hton32(4);
-			*((int32_t *)((*blob) + 4)) = hton32(*((int32_t *)&f));
+			datalen = 4;
+			*((int32_t *)data) = hton32(*((int32_t *)&f));
 		}
 		break;
 	case 'd':
 		{
 			double f = a->w.d;
-			*((int32_t *)(*blob)) = hton32(8);
-			*((int64_t *)((*blob) + 4)) = hton64(*((int64_t *)&f));
+			datalen = 8;
+			*((int64_t *)data) = hton64(*((int64_t *)&f));
 		}
 		break;
 	case 's':
 		{
-			*((int32_t *)(*blob)) = hton32(*buflen - 4);
+			*((int32_t *)(*blob)) = hton32(room);
 			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen, &p);
+			osc_atom_u_getString(a, room, &p);
 		}
 		break;
 	case OSC_BUNDLE_TYPETAG:
@@ -988,17 +995,21 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 				long l = osc_bundle_s_getLen(bs);
 				char *bndl = osc_bundle_s_getPtr(bs);
 				*((int32_t *)(*blob)) = hton32(l);
-				memcpy((*blob) + 4, bndl, l);
+				memcpy((*blob) + 4, bndl, l < room ? l : room);
 				osc_bundle_s_deepFree(bs);
 			}
 		}
 		break;
 	case OSC_TIMETAG_TYPETAG:
-		*((int32_t *)(*blob)) = hton32(OSC_TIMETAG_SIZEOF);
-		osc_timetag_encodeForHeader(a->w.t, (*blob) + 4);
+		datalen = OSC_TIMETAG_SIZEOF;
+		osc_timetag_encodeForHeader(a->w.t, data);
 		break;
 	default: ;
 	}
+	if(datalen){
+		*((int32_t *)(*blob)) = hton32(datalen);
+		memcpy((*blob) + 4, data, datalen < room ? datalen : room);
+	}
 }
 
 void osc_atom_u_setFloat(t_osc_atom_u *a, float v)
-- 
2.43.0


From 99d764551a4af2b5509b5affc4d4efed5a9cd78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:41 +0000
Subject: [PATCH 164/169] fix: removing from, querying and dispatching large
 bundles overflows the stack

---
 osc_bundle_s.c | 7 +++++--
 osc_dispatch.c | 6 +++++-
 osc_query.c    | 7 ++++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 2f051c8..bdd0691 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -348,8 +348,10 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 
 t_osc_err osc_bundle_s_removeMessage(char *pattern, long *len, char *ptr, int fullmatch)
 {
-	char tmp[*len];
-	memset(tmp, '\0', *len);
+	char *tmp = osc_mem_alloc(*len);
+	if(!tmp){
+		return OSC_ERR_OUTOFMEM;
+	}
 	char *p1 = tmp, *p2 = ptr + OSC_HEADER_SIZE, *p3 = ptr + OSC_HEADER_SIZE;
 	memcpy(p1, ptr, OSC_HEADER_SIZE);
 	p1 += OSC_HEADER_SIZE;
@@ -389,6 +391,7 @@ t_osc_err osc_bundle_s_removeMessage(char *pattern, long *len, char *ptr, int fu
 	}
 	memcpy(ptr, tmp, p1 - tmp);
 	*len = p1 - tmp;
+	osc_mem_free(tmp);
 	return OSC_ERR_NONE;
 }
 
diff --git a/osc_dispatch.c b/osc_dispatch.c
index 1867981..85c8dce 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -110,7 +110,10 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 	}else if(po > 0 && ((osc_message_s_getAddress(msg)[po] == '/') || star_at_end == 1)){
 		// partial match
 		if(strip_matched_portion_of_address){
-			char buf[osc_message_s_getSize(msg) + 4];
+			char *buf = osc_mem_alloc(osc_message_s_getSize(msg) + 4);
+			if(!buf){
+				return 0;
+			}
 			char *address = osc_message_s_getAddress(msg);
 			if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
 				// what remains is not a valid address, so pass the message on as it is
@@ -119,6 +122,7 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
+			osc_mem_free(buf);
 			//int msglen = osc_message_s_getLen(msg) + 4;
 			//char buf[msglen];
 
diff --git a/osc_query.c b/osc_query.c
index 6970e67..3141061 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -115,7 +115,11 @@ int osc_query_select_impl(int nselectors,
 			}else if(po > 0 && ((osc_message_s_getAddress(msg)[po] == '/') || star_at_end == 1)){
 				// partial match
 				if(strip_matched_portion_of_address){
-					char buf[osc_message_s_getSize(msg) + 4];
+					char *buf = osc_mem_alloc(osc_message_s_getSize(msg) + 4);
+					if(!buf){
+						osc_bndl_it_s_destroy(b_it);
+						return OSC_ERR_OUTOFMEM;
+					}
 					char *address = osc_message_s_getAddress(msg);
 					if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
 						// what remains is not a valid address, so pass the message on as it is
@@ -127,6 +131,7 @@ int osc_query_select_impl(int nselectors,
 					osc_rset_addPartialMatch(*rset,
 								 rec_selector ? rec_selector : selector,
 								 (t_osc_msg_s *)msg_s);
+					osc_mem_free(buf);
 				}else{
 					//osc_bundle_s_appendMessage_b(partial_match, msg);
 					osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
-- 
2.43.0


From bda2dc62b27dd07baf3c760d6d92858c32537e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:24 +0000
Subject: [PATCH 165/169] fix: exploding and flattening long addresses
 overflows the stack

---
 osc_bundle_u.c  | 12 ++++++++++--
 osc_message_u.c | 21 ++++++++++++++++++---
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 6a9c9f6..ff49834 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -466,7 +466,10 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					t_osc_err e;
 					if(prefix){
 						int prefixlen = strlen(prefix) + strlen(osc_message_u_getAddress(mcopy)) + strlen(sep);
-						char pfx[prefixlen + 1];
+						char *pfx = osc_mem_alloc(prefixlen + 1);
+						if(!pfx){
+							return OSC_ERR_OUTOFMEM;
+						}
 						sprintf(pfx, "%s%s%s", prefix, sep, osc_message_u_getAddress(mcopy));
 						e = osc_bundle_u_flatten_impl(dest,
 									      bu,
@@ -475,6 +478,7 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 									      pfx,
 									      sep,
 									      remove_enclosing_address_if_empty);
+						osc_mem_free(pfx);
 					}else{
 						e = osc_bundle_u_flatten_impl(dest,
 									      bu,
@@ -494,9 +498,13 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
 				int newaddresslen = strlen(prefix) + strlen(osc_message_u_getAddress(mcopy)) + strlen(sep);
-				char newaddress[newaddresslen + 1];
+				char *newaddress = osc_mem_alloc(newaddresslen + 1);
+				if(!newaddress){
+					return OSC_ERR_OUTOFMEM;
+				}
 				sprintf(newaddress, "%s%s%s", prefix, sep, osc_message_u_getAddress(mcopy));
 				osc_message_u_setAddress(mcopy, newaddress);
+				osc_mem_free(newaddress);
 			}
 			osc_bundle_u_addMsgWithoutDups(*dest, mcopy);
 		}else{
diff --git a/osc_message_u.c b/osc_message_u.c
index 93e3fe1..156449d 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -864,7 +864,10 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			break;
 		}
 	}
-	char a1[alen + 1];
+	char *a1 = osc_mem_alloc(alen + 1);
+	if(!a1){
+		return OSC_ERR_OUTOFMEM;
+	}
 	strncpy(a1, a, i);
 	a1[i] = '\0';
 
@@ -872,10 +875,12 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 	osc_bundle_u_addressExists(dest, a1, 1, &exists);
 	if(exists){
 		if(a[i] == '\0'){
+			osc_mem_free(a1);
 			osc_bundle_u_addMsgWithoutDups(dest, msg);
 			return OSC_ERR_NONE;
 		}else{
 			t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(dest, a1, 1);
+			osc_mem_free(a1);
 			t_osc_msg_u *m = NULL;
 			t_osc_bndl_u *b = NULL;
 			osc_message_u_deepCopy(&m, osc_message_array_u_get(ar, 0));
@@ -903,7 +908,10 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					osc_message_u_clearArgs(m);
 				}
 			}
-			char a2[alen + 1];
+			char *a2 = osc_mem_alloc(alen + 1);
+			if(!a2){
+				return OSC_ERR_OUTOFMEM;
+			}
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
@@ -915,6 +923,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
+			osc_mem_free(a2);
 			t_osc_err ret = osc_message_u_explode_impl(b, msg, level + 1, maxlevel, s);
 			if(ret){
 				return ret;
@@ -933,12 +942,17 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 		}
 	}else{
 		if(a[i] == '\0'){
+			osc_mem_free(a1);
 			osc_bundle_u_addMsg(dest, msg);
 		}else{
 			t_osc_bndl_u *b = osc_bundle_u_alloc();
 			t_osc_msg_u *m = osc_message_u_alloc();
 			osc_message_u_setAddress(m, a1);
-			char a2[alen + 1];
+			osc_mem_free(a1);
+			char *a2 = osc_mem_alloc(alen + 1);
+			if(!a2){
+				return OSC_ERR_OUTOFMEM;
+			}
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
@@ -950,6 +964,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
+			osc_mem_free(a2);
 			t_osc_err ret = osc_message_u_explode_impl(b, msg, level + 1, maxlevel, s);
 			if(ret){
 				return ret;
-- 
2.43.0


From a1345d3c5c2b14c97ab502f6e4801b6c4754eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:04 +0000
Subject: [PATCH 166/169] fix: expressions on long lists and text overflow the
 stack

---
 osc_expr.c        | 69 ++++++++++++++++++++++++++++++-----------------
 osc_expr_parser.y | 12 ++++++---
 2 files changed, 53 insertions(+), 28 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4a1a4dd..cc1dc01 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1045,16 +1045,15 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		return err;
 	}
 
-	int test_result_len = osc_atom_array_u_getLen(argv);
-	if(test_result_len < 1){
+	if(osc_atom_array_u_getLen(argv) < 1){
 		osc_error(context, OSC_ERR_EXPR_EVAL, "osc_expr if(): the test has no value");
 		if(argv){
 			osc_atom_array_u_free(argv);
 		}
 		return 1;
 	}
-	t_osc_atom_ar_u *boolvec[test_result_len];
-	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
+	// only the first value of the test decides
+	t_osc_atom_ar_u *boolvec[1] = {NULL};
 	int outlen = 0;
 	int j = 0;
 	//for(int j = 0; j < osc_atom_array_u_getLen(argv); j++){
@@ -1111,12 +1110,12 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		}
 		//}
 	*out = osc_atom_array_u_alloc(outlen);
-	for(int i = 0; i < test_result_len; i++){
+	for(int i = 0; i < 1; i++){
 		osc_atom_array_u_copyInto(out, boolvec[i], j);
 		j += osc_atom_array_u_getLen(boolvec[i]);
 	}
  out:
-	for(int i = 0; i < test_result_len; i++){
+	for(int i = 0; i < 1; i++){
 		if(boolvec[i]){
 			osc_atom_array_u_free(boolvec[i]);
 		}
@@ -2283,9 +2282,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	if(tt1 == 's' && tt2 == 's'){
 		char *sp1 = osc_atom_u_getStringPtr(f1);
 		char *sp2 = osc_atom_u_getStringPtr(f2);
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1);
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 	}else if(tt1 == 's' && OSC_TYPETAG_ISNUMERIC(tt2)){
 		char *sp1 = osc_atom_u_getStringPtr(f1);
 		char *sp2 = NULL;
@@ -2293,9 +2293,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(!sp2){
 			return 0;
 		}
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1);
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 		osc_mem_free(sp2);
 	}else if(tt2 == 's' && OSC_TYPETAG_ISNUMERIC(tt1)){
 		char *sp2 = osc_atom_u_getStringPtr(f2);
@@ -2304,9 +2305,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(!sp1){
 			return 0;
 		}
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1);
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 		osc_mem_free(sp1);
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
@@ -2797,11 +2799,13 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		if(len1 != len2){
 			osc_atom_u_setBool(*result, 0);
 		}else{
-			char buf1[len1];
+			char *buf1 = osc_mem_alloc(len1);
 			osc_bundle_u_nserialize(buf1, len1, b1);
-			char buf2[len2];
+			char *buf2 = osc_mem_alloc(len2);
 			osc_bundle_u_nserialize(buf2, len2, b2);
 			long r = memcmp(buf1, buf2, len1);
+			osc_mem_free(buf1);
+			osc_mem_free(buf2);
 			osc_atom_u_setBool(*result, !r);
 		}
 	}else{
@@ -2844,11 +2848,13 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(len1 != len2){
 			osc_atom_u_setBool(*result, 1);
 		}else{
-			char buf1[len1];
+			char *buf1 = osc_mem_alloc(len1);
 			osc_bundle_u_nserialize(buf1, len1, b1);
-			char buf2[len2];
+			char *buf2 = osc_mem_alloc(len2);
 			osc_bundle_u_nserialize(buf2, len2, b2);
 			long r = memcmp(buf1, buf2, len1);
+			osc_mem_free(buf1);
+			osc_mem_free(buf2);
 			osc_atom_u_setBool(*result, r);
 		}
 	}else{
@@ -3902,7 +3908,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long n = osc_atom_array_u_getLen(argv[0]);
     
     *out = osc_atom_array_u_alloc(n);
-    t_sortIndexStruct sort_ar[n];
+    t_sortIndexStruct *sort_ar = (t_sortIndexStruct *)osc_mem_alloc(n * sizeof(t_sortIndexStruct));
     
     for(int i = 0; i < n; i++)
     {
@@ -3919,6 +3925,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
         osc_atom_u_free(sort_ar[i].a);
     }
+    osc_mem_free(sort_ar);
     
     return 0;
 }
@@ -3926,7 +3933,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	long n = osc_atom_array_u_getLen(argv[0]);
-	long idxs[n];
+	long *idxs = (long *)osc_mem_alloc(n * sizeof(long));
 	long idxcount = 0;
 	for(int i = 0; i < n; i++){
 		t_osc_atom_u *a = osc_atom_array_u_get(argv[0], i);
@@ -3939,6 +3946,7 @@ int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	for(int i = 0; i < idxcount; i++){
 		osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), idxs[i]);
 	}
+	osc_mem_free(idxs);
 	return 0;
 }
 
@@ -4620,8 +4628,8 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 		osc_error(context, OSC_ERR_INVAL, "quickhull(): requires at least three points");
 		return 0;
 	}
-	double xs[n];
-	double ys[n];
+	double *xs = (double *)osc_mem_alloc(n * sizeof(double));
+	double *ys = (double *)osc_mem_alloc(n * sizeof(double));
 	if(argc == 1){
 		for(int i = 0; i < n; i++){
 			xs[i] = osc_atom_u_getDouble(osc_atom_array_u_get(argv[0], i * 2));
@@ -4641,7 +4649,7 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 			maxx = i;
 		}
 	}
-	int hull[n];
+	int *hull = (int *)osc_mem_alloc(n * sizeof(int));
 	memset(hull, 0, n * sizeof(int));
 	int hulln = 0;
 	hulln = _osc_expr_quickhull(hulln, hull, minx, maxx, n, xs, ys, 1);
@@ -4656,6 +4664,9 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 			j++;
 		}
 	}
+	osc_mem_free(xs);
+	osc_mem_free(ys);
+	osc_mem_free(hull);
 	return 0;
 }
 
@@ -5222,7 +5233,7 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
         osc_atom_u_getString(osc_atom_array_u_get(argv[1], i), 0, &str);
         long len = strlen(str);
         
-        char buf[numchars+1];
+        char *buf = osc_mem_alloc(numchars + 1);
         for( j = 0; j < numchars; j++ )
         {
             int pos = osc_atom_u_getInt32(osc_atom_array_u_get(argv[0], j));
@@ -5233,12 +5244,14 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
             else
             {
                 osc_error(context, OSC_ERR_EXPR_ARGCHK, "char index out of range.");
+                osc_mem_free(buf);
                 osc_mem_free(str);
                 return 1;
             }
         }
         buf[numchars] = '\0';
         osc_atom_u_setString(osc_atom_array_u_get(*out, i), buf );
+        osc_mem_free(buf);
         osc_mem_free(str);
     }
     return 0;
@@ -5362,7 +5375,7 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	for(int i = 1; i < argc; i++){
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
-	char *ptrs[n];
+	char **ptrs = (char **)osc_mem_alloc(n * sizeof(char *));
 	int len = 0;
 	n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5395,6 +5408,7 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			osc_mem_free(ptrs[i]);
 		}
 	}
+	osc_mem_free(ptrs);
 	*out = osc_atom_array_u_alloc(1);
 	osc_atom_u_setStringPtr(osc_atom_array_u_get(*out, 0), buf);
 	osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
@@ -6451,7 +6465,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		t_osc_msg_u *full = osc_message_u_allocWithAddress("/full");
 		t_osc_msg_u *partial = osc_message_u_allocWithAddress("/partial");
 		t_osc_msg_u *unmatched = osc_message_u_allocWithAddress("/unmatched");
-		int matches[naddresses];
+		int *matches = (int *)osc_mem_alloc(naddresses * sizeof(int));
 		memset(matches, 0, sizeof(int) * naddresses);
 		for(int j = 0; j < naddresses; j++){
 			t_osc_atom_u *address = osc_atom_array_u_get(argv[1], j);
@@ -6481,6 +6495,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 				osc_message_u_appendString(unmatched, address_string);
 			}
 		}
+		osc_mem_free(matches);
 		osc_bundle_u_addMsg(b, pattern_msg);
 		osc_bundle_u_addMsg(b, full);
 		osc_bundle_u_addMsg(b, partial);
@@ -7197,13 +7212,17 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	if(!osc_expr_functionBundle){
 		osc_expr_makeFunctionBundle();
 	}
-	char buf[strlen(cat) + sizeof("/doc/category")];
+	char *buf = osc_mem_alloc(strlen(cat) + sizeof("/doc/category"));
+	if(!buf){
+		return OSC_ERR_OUTOFMEM;
+	}
 	if(strncmp(cat, "/doc/category", 13)){
 		sprintf(buf, "/doc/category%s", cat);
 	}else{
 		sprintf(buf, "%s", cat);
 	}
 	t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(osc_expr_functionBundle, buf, 0);
+	osc_mem_free(buf);
 	if(ar){
 		t_osc_bndl_u *bndl = osc_bundle_u_alloc();
 		osc_bundle_u_addMsgArrayCopy(bndl, ar);
@@ -7388,12 +7407,14 @@ void osc_expr_formatFunctionTable(long *buflen, char **buf)
 static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, int argnum, t_osc_atom_u *left, t_osc_atom_u *right)
 {
 	long len = osc_atom_u_nformat(NULL, 0, left, 0);
-	char leftstr[len + 1];
+	char *leftstr = osc_mem_alloc(len + 1);
 	osc_atom_u_nformat(leftstr, len + 1, left, 0);
 	len = osc_atom_u_nformat(NULL, 0, right, 0);
-	char rightstr[len + 1];
+	char *rightstr = osc_mem_alloc(len + 1);
 	osc_atom_u_nformat(rightstr, len + 1, right, 0);
  	osc_error(context, OSC_ERR_EXPR_ARGCHK, "bad argument for expression %s %s %s. arg %d is a %s", leftstr, func, rightstr, argnum, osc_typetag_str(typetag));
+	osc_mem_free(leftstr);
+	osc_mem_free(rightstr);
 }
 
 static void osc_expr_err_unbound(void *context, char *address, char *func)
diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index f8658db..355a572 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1512,33 +1512,37 @@ expr:
 	}
 // invalid constructs that result in errors
 	| OSC_EXPR_STRING OSC_EXPR_INC '=' arg {
-		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($1)) + 3);
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($1);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
-		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($1)) + 3);
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($1);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
-		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($2)) + 3);
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($2);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
-		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($2)) + 3);
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($2);
 		osc_expr_arg_freeList($4);
 		YYABORT;
-- 
2.43.0


From c086376be91ea3f43e09a47ad058391ac5b22584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:18 +0000
Subject: [PATCH 167/169] fix: quickhull() finds every corner when several
 points share the smallest or largest x

The two starting points were chosen by x alone, so with ties they could be
points in the middle of an edge (and with all points on a vertical line both
could be the same one), and the real corners were left out.
---
 osc_expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index cc1dc01..211f1b5 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4643,9 +4643,11 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 	}
 	int minx = 0, maxx = 0;
 	for(int i = 1; i < n; i++){
-		if(xs[i] < xs[minx]){
+		// ties are decided by y, so that both are corners of the hull
+		if(xs[i] < xs[minx] || (xs[i] == xs[minx] && ys[i] < ys[minx])){
 			minx = i;
-		}else if(xs[i] > xs[maxx]){
+		}
+		if(xs[i] > xs[maxx] || (xs[i] == xs[maxx] && ys[i] > ys[maxx])){
 			maxx = i;
 		}
 	}
-- 
2.43.0


From cfbc3da6ad482af8e023c7f272ae5a6b9f0a58a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:33 +0000
Subject: [PATCH 168/169] fix: a lambda's parameter bound to an empty value
 reads as its own name

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 211f1b5..cf43098 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -431,6 +431,10 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				osc_expr_destroyLexenv(lexenv_copy);
 				return e;
 			}
+			if(!atoms){
+				// the parameter is bound, to nothing
+				atoms = osc_atom_array_u_alloc(0);
+			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
 			arg = arg->next;
 		}
-- 
2.43.0


From 5d31bac83973257ba196d75682727d8306f2ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:17 +0000
Subject: [PATCH 169/169] fix: osc_atom_u_setString lost the memory of the old
 string when given NULL

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 18e14bc..ffbd242 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1123,7 +1123,7 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 			a->w.s = osc_mem_resize(a->w.s, len);
 			strncpy(a->w.s, v, len);
 		}else{
-			a->w.s = NULL;
+			osc_atom_u_clear(a);
 		}
 	}else{
 		osc_atom_u_clear(a);
-- 
2.43.0

