From 5ea1e7ad33e4afe3dcd9a641f8180081ddad2268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 01/86] fix: keep all text lines of a message body in order

An incomplete last line, text after control lines and text after a second
tear line or origin was lost or reordered. A missing origin was replaced by
whatever was in the line buffer, and the default SEEN-BY and PATH lines were
not terminated.
---
 src/common/message.c | 133 +++++++++++++++++++++++++------------------
 1 file changed, 79 insertions(+), 54 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 1c8a3ff..dc012a5 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -474,6 +474,45 @@ int msg_body_parse(Textlist * text, MsgBody * body)
 #define FOUND_ORIGIN		0x0002
 #define FOUND_TEARLINE		0x0004
 
+/*
+ * Read the next body line. An incomplete last line (not terminated by CR
+ * before the end of the message) is terminated and returned like any other
+ * one, its end type is returned by the following call.
+ */
+static int body_get_line(FILE * fp, char *buf, size_t size, int *pending)
+{
+    int type;
+
+    if (*pending != 1)
+        return *pending;
+
+    /* Room for \r\n */
+    type = pkt_get_line(fp, buf, size - 2);
+    if ((type == MSG_END || type == MSG_TYPE) && buf[0]) {
+        str_append(buf, size, "\r\n");
+        *pending = type;
+        return 1;
+    }
+
+    return type;
+}
+
+/*
+ * What looked like tear line and origin is part of the text, if it is followed
+ * by more text
+ */
+static void body_flush_tear_origin(MsgBody * body)
+{
+    if (body->tear)
+        tl_append(&body->body, body->tear);
+    if (body->origin)
+        tl_append(&body->body, body->origin);
+    xfree(body->tear);
+    body->tear = NULL;
+    xfree(body->origin);
+    body->origin = NULL;
+}
+
 /*
  * Read text body from packet into Textlist & parse it.
  *
@@ -491,11 +530,12 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
     int line = 0;
     int ret = ERROR;
     int len;
+    int pending = 1;
 
     msg_body_clear(body);
 
     /* Read lines and put into textlist */
-    while ((type = pkt_get_line(fp, buffer, sizeof(buffer))) == 1) {
+    while ((type = body_get_line(fp, buffer, sizeof(buffer), &pending)) == 1) {
         if (do_flag == HI_KLUDGE) {
             if (buffer[0] == '\001') {
                 tl_append(&body->kludge, buffer);
@@ -570,7 +610,9 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
         if (do_flag == PARSE_BODY_NETMAIL) {
             if (!strncmp(buffer, "---", 3) &&
-                (buffer[3] == ' ' || buffer[3] == '\r') && !body->tear) {
+                (buffer[3] == ' ' || buffer[3] == '\r')) {
+                if (body->tear || body->origin)
+                    body_flush_tear_origin(body);
                 body->tear = strsave(buffer);
                 if (verbose) {
                     len = strlen(buffer);
@@ -578,10 +620,11 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "tearline: %s", buffer);
                 }
-                line |= FOUND_TEARLINE;
                 continue;
             }
-            if (!strncmp(buffer, " * Origin:", 10) && !body->origin) {
+            if (!strncmp(buffer, " * Origin:", 10)) {
+                if (body->origin)
+                    body_flush_tear_origin(body);
                 body->origin = strsave(buffer);
                 if (verbose) {
                     len = strlen(buffer);
@@ -589,7 +632,6 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "origin: %s", buffer);
                 }
-                line |= FOUND_ORIGIN;
                 continue;
             }
 
@@ -605,31 +647,20 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                 line |= FOUND_KLUDGE;
                 continue;
             }
-            /* control duplicate origin or tearline */
-            if (line == 0) {
-                tl_append(&body->body, buffer);
-                if (verbose) {
-                    len = strlen(buffer);
-                    if (buffer[len - 1] == '\n')
-                        buffer[len - 1] = '\0';
-                    debug(9, "body: %s", buffer);
-                }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
-                tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
-                tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
+            /* tearline and origin are only valid at the end of the text */
+            body_flush_tear_origin(body);
+            tl_append(&body->body, buffer);
+            if (verbose) {
+                len = strlen(buffer);
+                if (buffer[len - 1] == '\n')
+                    buffer[len - 1] = '\0';
+                debug(9, "body: %s", buffer);
             }
         } else if (do_flag == PARSE_BODY_ECHOMAIL) {
             if (!strncmp(buffer, "---", 3) &&
-                (buffer[3] == ' ' || buffer[3] == '\r') && !body->tear) {
+                (buffer[3] == ' ' || buffer[3] == '\r')) {
+                if (body->tear || body->origin)
+                    body_flush_tear_origin(body);
                 body->tear = strsave(buffer);
                 if (verbose) {
                     len = strlen(buffer);
@@ -637,10 +668,11 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "tearline: %s", buffer);
                 }
-                line |= FOUND_TEARLINE;
                 continue;
             }
-            if (!strncmp(buffer, " * Origin:", 10) && !body->origin) {
+            if (!strncmp(buffer, " * Origin:", 10)) {
+                if (body->origin)
+                    body_flush_tear_origin(body);
                 body->origin = strsave(buffer);
                 if (verbose) {
                     len = strlen(buffer);
@@ -648,7 +680,6 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "origin: %s", buffer);
                 }
-                line |= FOUND_ORIGIN;
                 continue;
             }
 
@@ -674,27 +705,21 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                 line |= FOUND_KLUDGE;
                 continue;
             }
-            /* control duplicate origin or tearline */
-            if (line == 0) {
-                tl_append(&body->body, buffer);
-                if (verbose) {
-                    len = strlen(buffer);
-                    if (buffer[len - 1] == '\n')
-                        buffer[len - 1] = '\0';
-                    debug(9, "body: %s", buffer);
-                }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
-                tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
-                tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
+            /*
+             * Tearline and origin are only valid at the end of the text.
+             * Some systems generate empty lines between origin and SEEN-BY,
+             * trailing lines after the SEEN-BYs are not part of the text.
+             */
+            if (body->origin && is_blank_line(buffer))
+                continue;
+            if (!(line & FOUND_KLUDGE))
+                body_flush_tear_origin(body);
+            tl_append(&body->body, buffer);
+            if (verbose) {
+                len = strlen(buffer);
+                if (buffer[len - 1] == '\n')
+                    buffer[len - 1] = '\0';
+                debug(9, "body: %s", buffer);
             }
         }
     }
@@ -715,17 +740,17 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             debug(9, "WARNING: no ' * Origin:' line!");
 #ifdef INSERT_ORIGIN
             sprintf(buffer, " * Origin: (%s)\r", znfp1(from));
-#endif
             body->origin = strsave(buffer);
+#endif
         }
         if (body->seenby.n == 0) {
             debug(9, "WARNING: parsing echomail message: no SEEN-BY line!");
-            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d\r", to->net, to->node);
             tl_append(&body->seenby, buffer);
         }
         if (body->path.n == 0) {
             debug(9, "WARNING: parsing echomail message: no ^APATH line!");
-            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d\r", to->net, to->node);
             tl_append(&body->path, buffer);
         }
     }
-- 
2.43.0


From e1c2140b26a0c137d0c81a842e275646ba2af30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 02/86] fix: do not lose a node following its point in address
 lists; UB shift in dbz

---
 src/common/dbz.c  | 2 +-
 src/common/node.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/dbz.c b/src/common/dbz.c
index 483f412..6a55b78 100644
--- a/src/common/dbz.c
+++ b/src/common/dbz.c
@@ -1454,7 +1454,7 @@ int map[];                      /* -> int[SOF] */
         DEBUG(("mybytemap: byte %d\n", i));
         *--mp = i;
         while (u.c[i] != 0)
-            u.o <<= 1;
+            u.o = (of_t) ((unsigned long)u.o << 1);
     }
 }
 
diff --git a/src/common/node.c b/src/common/node.c
index e33d2a9..acd0f4f 100644
--- a/src/common/node.c
+++ b/src/common/node.c
@@ -250,7 +250,9 @@ char *node_to_asc_diff(Node * node, Node * oldnode)
     buf[0] = '\0';              /* for all equal non-point case */
     if (node->zone == oldnode->zone) {
         if (node->net == oldnode->net) {
-            if (node->node == oldnode->node) {
+            /* node itself after one of its points must not be omitted */
+            if (node->node == oldnode->node &&
+                (node->point != 0 || oldnode->point <= 0)) {
                 if (node->point != 0)
                     str_printf(buf, sizeof(buf), ".%d", node->point);
             } else
-- 
2.43.0


From 75ec4249684014c005f9dd672059d6cc814b62f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 03/86] fix: string helpers wrote or read one byte outside the
 buffer

---
 src/common/misc.c | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 7d63a93..2be04d9 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -162,10 +162,10 @@ char *str_append2(char *d, size_t n, char *s1, char *s2)
     int sz = strlen(d);
     char *p = s1;
 
-    for (; *p && sz < n; p++, sz++)
+    for (; *p && sz + 1 < n; p++, sz++)
         d[sz] = *p;
 
-    for (p = s2; *p && sz < n; p++, sz++)
+    for (p = s2; *p && sz + 1 < n; p++, sz++)
         d[sz] = *p;
 
     d[sz++] = 0;
@@ -178,10 +178,10 @@ char *str_copy2(char *d, size_t n, char *s1, char *s2)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -195,13 +195,13 @@ char *str_copy3(char *d, size_t n, char *s1, char *s2, char *s3)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -214,16 +214,16 @@ char *str_copy4(char *d, size_t n, char *s1, char *s2, char *s3, char *s4)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -237,19 +237,19 @@ char *str_copy5(char *d, size_t n, char *s1, char *s2, char *s3, char *s4,
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
-    for (p = s5; *p && i < n; p++, i++)
+    for (p = s5; *p && i + 1 < n; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -322,11 +322,10 @@ void strip_crlf(char *line)
         return;
 
     len = strlen(line);
-    if (line[len - 1] == '\n')
-        line[len - 1] = 0;
+    if (len > 0 && line[len - 1] == '\n')
+        line[--len] = 0;
 
-    len = strlen(line);
-    if (line[len - 1] == '\r')
+    if (len > 0 && line[len - 1] == '\r')
         line[len - 1] = 0;
 }
 
-- 
2.43.0


From f00e2853c613acd543ca5c2cf02a201af2d34e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 04/86] fix: tosser path handling and control characters in
 text

DeletePath crashed or used the DeleteSeenBy list, only the first configured
line was used, AddToSeenBy added nothing, messages without PATH were taken
for circular ones, and the line end after a ^B character was not seen.
---
 src/common/message.c |  3 +--
 src/toss/ftntoss.c   | 49 ++++++++++++++++++++++++--------------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index dc012a5..c53ea01 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -111,9 +111,8 @@ int pkt_get_line(FILE * fp, char *buf, int size)
                 fglog("pkt_get_line(): grunged packet");
                 return MSG_TYPE;
             }
+            ungetc(c1, fp);
             *p++ = c;
-            *p++ = c1;
-            size--;
             size--;
             break;
 
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index eb62f91..45bb77f 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -570,7 +570,7 @@ void do_seenby(LON * seenby, LON * nodes, LON * new, LON * passive, int cup,
             if (j < cup || node_eq(from, &p->node))
                 continue;
 
-            if ((NULL != passive) && !lon_search(passive, &(p->node))) {
+            if ((NULL == passive) || !lon_search(passive, &(p->node))) {
                 lon_add(seenby, &p->node);
                 if (new)
                     lon_add(new, &p->node);
@@ -671,19 +671,19 @@ void do_4dpoint(LON * seenby, LON * path, Node * from, Node * addr)
  */
 void do_deleteseenby(LON * seenby)
 {
+    DeleteSeenBy *d;
     LNode *p;
-    LON *ln;
 
-    ln = &deleteseenby_first->deleteseenby;
+    for (d = deleteseenby_first; d; d = d->next) {
+        lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
+                  &d->deleteseenby, FALSE);
 
-    lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
-              ln, FALSE);
-
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(seenby, &p->node)) {
-            debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
-                  znf1(&p->node));
-            lon_remove(seenby, &p->node);
+        for (p = d->deleteseenby.first; p; p = p->next) {
+            if (lon_search(seenby, &p->node)) {
+                debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
+                      znf1(&p->node));
+                lon_remove(seenby, &p->node);
+            }
         }
     }
 }
@@ -693,18 +693,19 @@ void do_deleteseenby(LON * seenby)
  */
 void do_deletepath(LON * path)
 {
+    DeletePath *d;
     LNode *p;
-    LON *ln;
-
-    ln = &deleteseenby_first->deleteseenby;
 
-    lon_debug(9, "do_deletepath(): List of PATH for removing: ", ln, FALSE);
+    for (d = deletepath_first; d; d = d->next) {
+        lon_debug(9, "do_deletepath(): List of PATH for removing: ",
+                  &d->deletepath, FALSE);
 
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(path, &p->node)) {
-            debug(7, "do_deletepath(): Found PATH for removing: %s",
-                  znf1(&p->node));
-            lon_remove(path, &p->node);
+        for (p = d->deletepath.first; p; p = p->next) {
+            if (lon_search(path, &p->node)) {
+                debug(7, "do_deletepath(): Found PATH for removing: %s",
+                      znf1(&p->node));
+                lon_remove(path, &p->node);
+            }
         }
     }
 }
@@ -1624,8 +1625,12 @@ int unpack(FILE * pkt_file, Packet * pkt)
         if (msg_body_parse(&tl, &body) == -2)
             fglog("ERROR: parsing message body");
 #else
-        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK) {
+        /*
+         * A message without SEEN-BY and ^APATH has only been seen by the
+         * system it comes from
+         */
+        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from,
+                               &msg.node_from) != OK) {
             fglog("ERROR: parsing message body");
             return ERROR;
         }
-- 
2.43.0


From 39e6ee6cbce2e0015f07a7e543f18301f2ff779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 05/86] fix: spyes forward node without point is the node
 itself, not point 65535

---
 src/common/spyes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/spyes.c b/src/common/spyes.c
index fea3e3d..2e4b751 100644
--- a/src/common/spyes.c
+++ b/src/common/spyes.c
@@ -74,7 +74,7 @@ static Spy *spyes_parse_line(char *buf)
         fglog("spyes: duplicate spy entry %s", n);
         return NULL;
     }
-    if (asc_to_node(r, &forward_node, TRUE) == ERROR) {
+    if (asc_to_node(r, &forward_node, FALSE) == ERROR) {
         fglog("spyes: illegal FTN address %s", r);
         return NULL;
     }
-- 
2.43.0


From a773168179d6b19d5a2553debbbb9ad2ad29cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 06/86] fix: router: direct messages, hub routing, unchanged
 SEEN-BY/PATH

A message with the direct flag closed the shared output packet behind its
owner's back and moved the whole input packet, duplicating the messages
already copied. The hub database was never opened and its entries never
parsed. Absent SEEN-BY/PATH lines were invented from the destination.
---
 src/common/message.c |  5 +++--
 src/toss/ftnroute.c  | 50 ++++++++++++++++++++++----------------------
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index c53ea01..657881b 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -742,12 +742,13 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             body->origin = strsave(buffer);
 #endif
         }
-        if (body->seenby.n == 0) {
+        /* to == NULL: leave the lines as they are */
+        if (to && body->seenby.n == 0) {
             debug(9, "WARNING: parsing echomail message: no SEEN-BY line!");
             snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d\r", to->net, to->node);
             tl_append(&body->seenby, buffer);
         }
-        if (body->path.n == 0) {
+        if (to && body->path.n == 0) {
             debug(9, "WARNING: parsing echomail message: no ^APATH line!");
             snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d\r", to->net, to->node);
             tl_append(&body->path, buffer);
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index d24401e..a778b8e 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -512,18 +512,21 @@ int do_cmd_mkroute(PktDesc * desc, MkRoute * r1)
             char *p, *p1;
             Node node;
 
-            if (!hist_init && nodelist_read()) {
+            if (!hist_init && nodelist_read() == OK) {
                 hi_init(cf_p_hubroutedb());
                 hist_init = TRUE;
             }
-            if ((p = hi_fetch(znfp1(&desc->to), 1))) {
-                p1 = xstrtok(p, " $");
-                if (*p1 && znfp_parse_partial(p, &node)) {
+            /* The database knows nodes only: "mode$uplink" */
+            node = desc->to;
+            node.point = 0;
+            if (hist_init && (p = hi_fetch(znfp1(&node), 1))) {
+                xstrtok(p, "$");
+                p1 = xstrtok(NULL, "$\r\n");
+                if (p1 && znfp_parse_partial(p1, &node) == OK) {
                     desc->to = node;
                     desc->to.point = 0;
-                    desc->move_only = FALSE;
-                    ret = TRUE;
                 }
+                desc->flav = r1->flav;
             } else {
                 fglog("ERROR: hub for node=%s not found", znfp1(&desc->to));
                 break;
@@ -585,6 +588,7 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     MsgBody body;               /* Message body of FTN message */
     int type, ret;
     FILE *fp;
+    Node *to;
 
     /*
      * Initialize
@@ -592,18 +596,8 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     tl_init(&tl);
     msg_body_init(&body);
 
-    /*
-     * Open output packet
-     */
     cf_set_zone(desc->to.zone);
 
-    fp = outpkt_open(&desc->from, &desc->to,
-                     desc->grade, desc->type, desc->flav, FALSE);
-    if (fp == NULL) {
-        fclose(pkt_file);
-        TMPS_RETURN(ERROR);
-    }
-
     /*
      * Read message from input packet and write to output packet
      */
@@ -622,23 +616,29 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
             break;
         }
 
-        if (msg.attr & MSG_DIRECT && !node_eq(&desc->to, &pkt->to)) {
-            fclose(fp);
-            debug(1, "routing: direct (%s)", znfp1(&pkt->to));
-            desc->to = pkt->to;
-            return do_move(pkt_name, pkt_file, desc);
-        }
-
         /*
          * Read & parse message body
          */
-        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK) {
+        if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, NULL) != OK) {
             fglog("ERROR: parsing message body");
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
         }
 
+        /*
+         * Direct messages go to the original destination of the packet,
+         * all others to the routed one
+         */
+        to = msg.attr & MSG_DIRECT ? &pkt->to : &desc->to;
+        if (!node_eq(to, &desc->to))
+            debug(1, "routing: direct (%s)", znfp1(to));
+        fp = outpkt_open(&desc->from, to,
+                         desc->grade, desc->type, desc->flav, FALSE);
+        if (fp == NULL) {
+            ret = ERROR;
+            break;
+        }
+
         if (body.area == NULL) {
             /*
              * NetMail
-- 
2.43.0


From 1a9e1831418e91df0952bfc8309958522563ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 07/86] fix: routing patterns in
 hostroute/bossroute/hubroute/xroute; packet point leaking into netmail

- mk_route() rejected wildcards, although documented and used in the
  examples, and silently dropped such rules
- the router took the point number of the packet header for netmail
  without FMPT/TOPT
---
 src/common/routing.c | 13 +++++++++----
 src/toss/ftnroute.c  |  3 +++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/common/routing.c b/src/common/routing.c
index 56038b4..16c3621 100644
--- a/src/common/routing.c
+++ b/src/common/routing.c
@@ -248,7 +248,7 @@ void routing_rewrite(int cmd)
 void mk_route(int cmd)
 {
     char *p;
-    Node dest, old;
+    Node dest, node, old;
     LON links;
     MkRoute *r;
     int flav;
@@ -290,9 +290,14 @@ void mk_route(int cmd)
     /*
      * Source node (pattern)
      */
-    while ((p = xstrtok(NULL, " \t")))
-        if (*p)
-            lon_add_string(&links, p);
+    while ((p = xstrtok(NULL, " \t"))) {
+        if (znfp_parse_diff(p, &node, &old) == ERROR) {
+            fglog("routing: illegal node address %s", p);
+        } else {
+            old = node;
+            lon_add(&links, &node);
+        }
+    }
 
     if (cmd == CMD_XROUTE && links.size != 2) {
         fglog("mk_route: xroute requires flavor type and 3 arguments");
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index a778b8e..9b9ccfd 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -643,6 +643,9 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
             /*
              * NetMail
              */
+            /* Don't use point address from packet for Netmail */
+            msg.node_from.point = 0;
+            msg.node_to.point = 0;
             /* Retrieve address from kludges */
             kludge_pt_intl(&body, &msg, TRUE);
             /* Write message header and body */
-- 
2.43.0


From 6e6327aea03d2d90173859edb983df0d6023a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 08/86] fix: ftnpack: netmail archived in place was lost, busy
 flags with fpack/rpack

- with default directories the packet to be archived was truncated while
  being read, unlinked, and only then passed to the archiver
- with fpack no busy flags were created but existing ones of other programs
  deleted; noarc packets via rpack/fpack flagged the wrong node
- uninitialized archive size limit, crash on a line without addresses,
  packet files without a packing command were never closed
---
 src/toss/ftnpack.c | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 136c184..c6c5014 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -267,9 +267,10 @@ Packing *packing_parse_line(char *buf)
     lon_init(&lon);
 
     p = xstrtok(NULL, " \t=");
-    if (!stricmp(p, "size")) {
+    if (p && !stricmp(p, "size")) {
         p = xstrtok(NULL, " \t");
-        ma = atol(p) * 1024L;
+        if (p)
+            ma = atol(p) * 1024L;
         p = xstrtok(NULL, " \t");
     }
     if (!ma)
@@ -297,8 +298,7 @@ Packing *packing_parse_line(char *buf)
     r->type = type;
     r->nodes = lon;
     r->next = NULL;
-    if (!r->maxarc)
-        r->maxarc = ma;
+    r->maxarc = ma;
 
     debug(15, "packing: pack=%c dir=%s arc=%s type=%c, maxarc=%ld",
           r->pack, r->dir ? r->dir : "", (r->arc ? r->arc->name : NULL),
@@ -603,6 +603,15 @@ int do_noarc(char *name, Node * flonode,
     Message msg = { 0 };
     Textlist tl;
     int type;
+    int same;
+    char tmp_name[MAXPATH];
+
+    /* Never write to the packet being read, use a temporary file */
+    same = out_name && streq(out_name, name);
+    if (same) {
+        BUF_COPY2(tmp_name, name, ".tmp");
+        out_name = tmp_name;
+    }
 
     /*
      * Open .OUT packet in Binkley outbound
@@ -716,7 +725,12 @@ int do_noarc(char *name, Node * flonode,
         fglog("$ERROR: can't close outbound packet");
         TMPS_RETURN(ERROR);
     }
-    if (unlink(name) != OK) {
+    if (same) {
+        if (rename(tmp_name, name) != OK) {
+            fglog("$ERROR: can't rename packet %s -> %s", tmp_name, name);
+            TMPS_RETURN(ERROR);
+        }
+    } else if (unlink(name) != OK) {
         fglog("$ERROR: can't remove packet %s", name);
         TMPS_RETURN(ERROR);
     }
@@ -785,16 +799,28 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
         flonode = pack->nodes.first->node;
     }
 
+    /* Not archived packets are written to the destination's outbound */
+    if (pack->arc && pack->arc->pack == PACK_ARC &&
+        (desc->flav == FLAV_CRASH || !pack->arc->prog))
+        arcnode = flonode = desc->to;
+
     /* Set all -1 values to 0 */
     set_zero(&arcnode);
     set_zero(&flonode);
 
-    if (node_eq(&arcnode, &flonode) &&
+    /* Create BSY file(s) */
+    if (bink_bsy_create(&arcnode, NOWAIT) == ERROR) {
+        debug(1, "%s busy, skipping", znfp1(&arcnode));
+        if (file)
+            fclose(file);
+        return OK;              /* This is o.k. */
+    }
+    if (!node_eq(&arcnode, &flonode) &&
         bink_bsy_create(&flonode, NOWAIT) == ERROR) {
         debug(1, "%s busy, skipping", znfp1(&flonode));
+        bink_bsy_delete(&arcnode);
         if (file)
             fclose(file);
-/*	bink_bsy_delete(&arcnode); */
         return OK;              /* This is o.k. */
     }
 
@@ -939,6 +965,9 @@ int do_packing(char *name, FILE * fp, Packet * pkt)
                 }
         }
 
+    /* No matching packing command */
+    fclose(fp);
+
     TMPS_RETURN(OK);
 }
 
@@ -958,6 +987,7 @@ int do_file(char *pkt_name)
     }
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
+        fclose(pkt_file);
         TMPS_RETURN(severe_error);
     }
 
-- 
2.43.0


From 93730137c7eec5d38db5efc52e94de0edf0e2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 09/86] fix: lock files were not exclusive, FLO file locking
 and errors

- two programs could both create the same lock/busy file; a stale lock could
  be removed after another program had replaced it by its own
- FLO/OUT files deleted and recreated while waiting for the lock were not
  noticed, leaving data in the deleted file
- flo_openx()/bink_attach() deleted or left behind busy files
- errors writing FLO entries were ignored
---
 src/common/binkley.c     | 25 +++++++++---
 src/common/flo.c         | 18 +++++----
 src/common/lock.c        | 83 ++++++++++++++++++++++++++++++++++------
 src/common/packet.c      |  2 +-
 src/include/prototypes.h |  1 +
 5 files changed, 103 insertions(+), 26 deletions(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 53dc9b1..c99d607 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -302,6 +302,9 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     char *n;
     char *line;
     int lmode, found;
+    off_t size;
+    ssize_t len;
+    char entry[MAXPATH + 8];
     static char buf[MAXPATH];
 
     if (mode)
@@ -325,7 +328,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     /* seek to start of flo file */
     if (fseek(fp, 0L, SEEK_SET) == ERROR) {
         fglog("$fseek EOF FLO file node %s failed", znfp1(node));
-        flo_close(node, TRUE, FALSE);
+        flo_close(node, bsy, FALSE);
         return ERROR;
     }
 
@@ -351,14 +354,24 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     else {
         debug(4, "FLO file open and locking succeeded, attaching file");
         if (mode)
-            fprintf(fp, "%c%s%s", mode, n, cf_dos()? "\r\n" : "\n");
+            snprintf(entry, sizeof(entry), "%c%s%s", mode, n,
+                     cf_dos()? "\r\n" : "\n");
         else
-            fprintf(fp, "%s%s", n, cf_dos()? "\r\n" : "\n");
+            snprintf(entry, sizeof(entry), "%s%s", n,
+                     cf_dos()? "\r\n" : "\n");
+        /* Unbuffered, an incomplete entry must not be left behind */
+        len = strlen(entry);
+        size = lseek(fileno(fp), 0, SEEK_END);
+        if (size == -1 || write(fileno(fp), entry, len) != len) {
+            fglog("$writing FLO file node %s failed", znfp1(node));
+            if (size != -1 && ftruncate(fileno(fp), size) == -1)
+                fglog("$truncating FLO file node %s failed", znfp1(node));
+            flo_close(node, bsy, FALSE);
+            return ERROR;
+        }
     }
 
-    flo_close(node, bsy, FALSE);
-
-    return OK;
+    return flo_close(node, bsy, FALSE);
 }
 
 /*
diff --git a/src/common/flo.c b/src/common/flo.c
index 31258b8..2c76be0 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -98,19 +98,20 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
         if (bsy)
             bink_bsy_delete(node);
         fclose(flo_fp);
+        flo_fp = NULL;
         return ERROR;
     }
 
     /* Lock succeeded, but the FLO file may have been deleted */
-    if (access(flo_name, F_OK) == ERROR) {
+    if (!file_is_same(flo_fp, flo_name)) {
         debug(4, "FLO file %s deleted after locking", flo_name);
         fclose(flo_fp);
-        if (apmode) {
-            if (bsy)
-                bink_bsy_delete(node);
+        flo_fp = NULL;
+        if (apmode)
             goto again;
-        } else
-            return ERROR;
+        if (bsy)
+            bink_bsy_delete(node);
+        return ERROR;
     }
 
     debug(4, "FLO file %s open and locking succeeded", flo_name);
@@ -171,7 +172,10 @@ int flo_close(Node * node, int bsy, int del)
                 fglog("$removing FLO file %s failed", flo_name);
                 ret = ERROR;
             }
-        fclose(flo_fp);
+        if (fclose(flo_fp) != 0) {
+            fglog("$closing FLO file %s failed", flo_name);
+            ret = ERROR;
+        }
         flo_fp = NULL;
     }
 
diff --git a/src/common/lock.c b/src/common/lock.c
index 2baf9cb..d8b8b0f 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -48,18 +48,32 @@ int check_stale_lock(char *name)
     pid_t pid;
     FILE *fp;
     char *ret;
+    int locked;
 
-    if ((fp = fopen(name, "r")) == NULL) {
+    /* "r+" to be able to lock it */
+    if ((fp = fopen(name, "r+")) == NULL && errno != ENOENT)
+        fp = fopen(name, "r");
+    if (fp == NULL) {
         if (errno == ENOENT)
             return LOCKFILE_UNLOCKED;
         else
             return LOCKFILE_ERROR;
     }
-    ret = fgets(buff, sizeof(buff), fp);
-    fclose(fp);
 
+    /*
+     * Another process may be about to remove the same stale lock file
+     * and to create its own one, don't remove that
+     */
+    locked = lock_file(fp) == OK;
+    if (locked && !file_is_same(fp, name)) {
+        fclose(fp);
+        return LOCKFILE_UNLOCKED;
+    }
+
+    ret = fgets(buff, sizeof(buff), fp);
     if (ret == NULL) {
         fglog("$ERROR: cannot read lock file");
+        fclose(fp);
         return LOCKFILE_ERROR;
     }
 
@@ -68,14 +82,18 @@ int check_stale_lock(char *name)
     else
         pid = -1;
 
-    if (kill(pid, 0) == 0 || errno == EPERM)
+    if (!locked || kill(pid, 0) == 0 || errno == EPERM) {
+        fclose(fp);
         return LOCKFILE_LOCKED;
+    }
 
     fglog("$WARNING: stale lock file %s (pid = %d) found", name, pid);
     if (unlink(name) != 0) {
         debug(7, "Deleteting stale lock file %s failed.", name);
+        fclose(fp);
         return LOCKFILE_ERROR;
     }
+    fclose(fp);
     return LOCKFILE_UNLOCKED;
 }
 
@@ -98,7 +116,7 @@ int lock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == -1 && errno == EINTR);
 
     return err;
 #endif
@@ -123,7 +141,7 @@ int unlock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == -1 && errno == EINTR);
 
     return err;
 #endif
@@ -145,6 +163,19 @@ int unlock_file(FILE * fp)
     return unlock_fd(fileno(fp));
 }
 
+/*
+ * file_is_same() --- is name still the file opened as fp?
+ *
+ * An other process may have deleted and recreated it, before we got the lock
+ */
+int file_is_same(FILE * fp, char *name)
+{
+    struct stat st, st2;
+
+    return fstat(fileno(fp), &st) == 0 && stat(name, &st2) == 0 &&
+        st.st_ino == st2.st_ino && st.st_dev == st2.st_dev;
+}
+
 #ifdef NFS_SAFE_LOCK_FILES
 /*
  * Create lock file, NFS-safe variant
@@ -248,15 +279,43 @@ int unlock_lockfile_nfs(char *name)
 }
 
 #else /**!NFS_SAFE_LOCKFILES**/
+/*
+ * Create lock file with PID at once, only if it doesn't exist
+ */
+static int create_lockfile(char *name)
+{
+    char uniq_name[MAXPATH];
+    FILE *fp;
+    int err;
+
+    str_printf(uniq_name, sizeof(uniq_name), "%s.L%d", name, (int)getpid());
+
+    if ((fp = fopen(uniq_name, "w")) == NULL)
+        return LOCKFILE_ERROR;
+    fprintf(fp, "%d\n", (int)getpid());
+    err = ferror(fp);
+    if (fclose(fp) != 0 || err) {
+        unlink(uniq_name);
+        return LOCKFILE_ERROR;
+    }
+
+    err = link(uniq_name, name) == -1 ? errno : 0;
+    unlink(uniq_name);
+
+    if (err == EEXIST)
+        return LOCKFILE_LOCKED;
+    return err ? LOCKFILE_ERROR : LOCKFILE_UNLOCKED;
+}
+
 /*
  * Create lock file with PID (id==NULL) or arbitrary string (id!=NULL)
  * Update: id != NULL lock is removed, is not used
  */
 int lock_lockfile(char *name, int wait)
 {
-    FILE *fp = NULL;
     short int wait_time = FALSE;
     short int exists_lock = FALSE;
+    int ret;
 
     if (wait && wait != WAIT)
         wait_time = TRUE;
@@ -265,12 +324,12 @@ int lock_lockfile(char *name, int wait)
     debug(7, "Creating lock file %s ...", name);
     do {
         /* if there is a stale lock, this function will remove it */
-        switch (check_stale_lock(name)) {
+        ret = check_stale_lock(name);
+        if (ret == LOCKFILE_UNLOCKED)
+            ret = create_lockfile(name);
+
+        switch (ret) {
         case LOCKFILE_UNLOCKED:
-            if ((fp = fopen(name, "w")) == NULL)
-                return ERROR;
-            fprintf(fp, "%d\n", (int)getpid());
-            fclose(fp);
             return OK;
 
         case LOCKFILE_LOCKED:
diff --git a/src/common/packet.c b/src/common/packet.c
index 823a22c..dd44f34 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -196,7 +196,7 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
         }
 
         /* Lock succeeded, but the OUT file may have been deleted */
-        if (access(out, F_OK) == -1) {
+        if (!file_is_same(fp, out)) {
             debug(4, "OUT file deleted, retrying");
             fclose(fp);
             fp = NULL;
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 9ec776c..141074d 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -314,6 +314,7 @@ int lock_fd(int);
 int unlock_fd(int);
 int lock_file(FILE *);
 int unlock_file(FILE *);
+int file_is_same(FILE *, char *);
 #ifdef NFS_SAFE_LOCK_FILES
 int lock_lockfile_nfs(char *, int, char *);
 int unlock_lockfile_nfs(char *);
-- 
2.43.0


From 5f8d0ffe014abf61547e7704972298b431861802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 10/86] fix: ftnin left the busy flag behind when the FLO file
 could not be opened

---
 src/gate/ftnin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gate/ftnin.c b/src/gate/ftnin.c
index 7472d19..2efe1e1 100644
--- a/src/gate/ftnin.c
+++ b/src/gate/ftnin.c
@@ -130,6 +130,7 @@ int do_packets(void)
             if ((name = bink_find_flo(node, NULL))) {
                 debug(5, "FLO file=%s", name);
                 if (flo_open(node, FALSE) == ERROR) {
+                    bink_bsy_delete(node);
                     continue;
                 }
 
-- 
2.43.0


From 189d45aede5b100529fbf0f50bef37e98291f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 11/86] fix: rfc2ftn crashed without DefaultCharset (upper
 cased a string constant)

---
 src/gate/rfc2ftn.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 203fac9..a527569 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -799,7 +799,7 @@ static void determine_charsets(RFCHeader *h, Area *parea, struct charset_info *i
 {
     char *default_rfc = NULL;
     char *ftn = NULL;
-    char *ftn_name;
+    static char ftn_name[MAXPATH];
     char *cs_rw;
     struct charset_config area_charset;
 
@@ -827,7 +827,8 @@ static void determine_charsets(RFCHeader *h, Area *parea, struct charset_info *i
     if (!ftn)
         ftn = CHARSET_STD7BIT;
 
-    ftn_name = charset_name_rfc2ftn(ftn);
+    /* ftn may be a string constant */
+    BUF_COPY(ftn_name, charset_name_rfc2ftn(ftn));
     str_upper(ftn_name);
 
     if (!default_rfc)
-- 
2.43.0


From b0de9539ec6f6a92f5dfdd3921cadf7ae0f8f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 12/86] fix: integer overflow in parsedate() on long digit
 strings and large relative dates

---
 src/common/parsedate.y | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/parsedate.y b/src/common/parsedate.y
index bb23635..8c85283 100644
--- a/src/common/parsedate.y
+++ b/src/common/parsedate.y
@@ -61,6 +61,8 @@ static int date_lex(void);
     /* See the LeapYears table in Convert. */
 #define EPOCH		1970
 #define END_OF_TIME	2038
+    /* Limit of relative dates, beyond it localtime() fails. */
+#define TIME_LIMIT	(10000L * 366L * SECSPERDAY)
     /* Constants for general time calculations. */
 #define DST_OFFSET	1
 #define SECSPERDAY	(24L * 60L * 60L)
@@ -728,8 +730,10 @@ date_lex(void)
 	    }
 	    else
 		sign = 0;
+	    /* No valid number is longer than this, don't overflow */
 	    for (i = 0; (c = *yyInput++) != '\0' && CTYPE(isdigit, c); )
-		i = 10 * i + c - '0';
+		if (i < 10000000)
+		    i = 10 * i + c - '0';
 	    yyInput--;
 	    yylval.Number = sign < 0 ? -i : i;
 	    return sign ? tSNUMBER : tUNUMBER;
@@ -798,8 +802,12 @@ parsedate(char *p, TIMEINFO *now)
     }
 
     Start += yyRelSeconds;
+    if (Start < -TIME_LIMIT || Start > TIME_LIMIT)
+	return -1;
     if (yyRelMonth)
 	Start += RelativeMonth(Start, yyRelMonth);
+    if (Start < -TIME_LIMIT || Start > TIME_LIMIT)
+	return -1;
 
     /* Have to do *something* with a legitimate -1 so it's distinguishable
      * from the error return value.  (Alternately could set errno on error.) */
-- 
2.43.0


From b08bbc6332c1a62518280b86b6326ff5f829f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 13/86] fix: overflow in FTN address parsing, reject numbers
 exceeding 16 bit

---
 src/common/parsenode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/parsenode.c b/src/common/parsenode.c
index 5874116..7d0252b 100644
--- a/src/common/parsenode.c
+++ b/src/common/parsenode.c
@@ -48,8 +48,12 @@ int znfp_get_number(char **ps)
     } else if (!is_digit(*s))
         return ERROR;
     else
-        while (is_digit(*s))
+        while (is_digit(*s)) {
             val = val * 10 + *s++ - '0';
+            /* Zone, net, node and point are 16 bit numbers */
+            if (val > 0xffff)
+                return ERROR;
+        }
 
     *ps = s;
 
-- 
2.43.0


From 3a92f599e8790310df42c3f3aa503642fda4b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 14/86] fix: ftnroute stopped at a malformed packet on every
 run, set it aside

---
 src/toss/ftnroute.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 9b9ccfd..a6dc20a 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -320,7 +320,7 @@ int do_routing(char *name, FILE * fp, Packet * pkt)
 
     desc = parse_pkt_name(name, &pkt->from, &pkt->to);
     if (desc == NULL)
-        return ERROR;
+        return severe_error = ERROR;
 
     debug(2, "Source packet: from=%s to=%s grade=%c type=%c flav=%c",
           znfp1(&desc->from), znfp2(&desc->to),
@@ -388,7 +388,7 @@ int do_move(char *name, FILE * fp, PktDesc * desc)
     debug(5, "Rename %s -> %s", name, buffer);
     if (rename(name, buffer) == ERROR) {
         fglog("$ERROR: can't rename %s -> %s", name, buffer);
-        return ERROR;
+        return severe_error = ERROR;
     }
 
     /* Set a/mtime to current time after renaming */
@@ -621,8 +621,8 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
          */
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, NULL) != OK) {
             fglog("ERROR: parsing message body");
-            fclose(pkt_file);
-            TMPS_RETURN(ERROR);
+            ret = ERROR;
+            break;
         }
 
         /*
@@ -635,7 +635,7 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
         fp = outpkt_open(&desc->from, to,
                          desc->grade, desc->type, desc->flav, FALSE);
         if (fp == NULL) {
-            ret = ERROR;
+            ret = severe_error = ERROR;
             break;
         }
 
@@ -691,14 +691,15 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     if (ret == OK && *pkt_name != '\0')
         if (unlink(pkt_name)) {
             fglog("$ERROR: can't unlink packet %s", pkt_name);
-            TMPS_RETURN(ERROR);
+            TMPS_RETURN(severe_error = ERROR);
         }
 
     TMPS_RETURN(ret);
 }
 
 /*
- * Process one packet file
+ * Process one packet file, a malformed one is set aside and doesn't keep us
+ * from processing the others
  */
 int do_file(char *pkt_name)
 {
@@ -716,7 +717,9 @@ int do_file(char *pkt_name)
 
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
-        TMPS_RETURN(ERROR);
+        fclose(pkt_file);
+        rename_bad(pkt_name);
+        TMPS_RETURN(OK);
     }
 
     /*
@@ -724,7 +727,9 @@ int do_file(char *pkt_name)
      */
     if (do_routing(pkt_name, pkt_file, &pkt) == ERROR) {
         fglog("ERROR: in processing %s", pkt_name);
-        TMPS_RETURN(ERROR);
+        if (severe_error == ERROR)
+            TMPS_RETURN(ERROR);
+        rename_bad(pkt_name);
     }
 
     TMPS_RETURN(OK);
-- 
2.43.0


From 483ad7709dab486c0b71b7473dbb73387a2b52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 15/86] fix: ftn2rfc read the text of a message it could not
 parse as the next message header

---
 src/gate/ftn2rfc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index e943095..3f0f63e 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -683,8 +683,12 @@ int unpack(FILE * pkt_file, Packet * pkt)
          */
 
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK)
+            OK) {
+            /* the rest of the body is not read, can't go on */
             fglog("ERROR: parsing message body");
+            ret = ERROR;
+            break;
+        }
 
 	/* ftn date is local, need to parse body kludges to adjust. */
 	msg_adjust_date_to_tz(&msg, kludge_get(&body.kludge, "TZUTC", NULL));
-- 
2.43.0


From c23d97783b3092b150b57a5aa17903820e1e1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 16/86] fix: ftn2rfc checked an uninitialised or the previous
 message's addressee

---
 src/gate/ftn2rfc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 3f0f63e..3439815 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -654,6 +654,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
 
     while ((type == MSG_TYPE) && !xfeof(pkt_file)) {
         x_orig_to[0] = 0;
+        mail_to[0] = 0;
         tl_clear(&theader);
         tl_clear(&tbody);
 
-- 
2.43.0


From 2f5a49adf0e0e74c318fb60d49cb17117aae398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 17/86] fix: ftn2rfc crashed bouncing a message to UUCP without
 To line

---
 src/gate/ftn2rfc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 3439815..0ecf166 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1076,6 +1076,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
             tl_clear(&theader);
             tl_clear(&tbody);
             tl_clear(&tl);
+            msg_body_clear(&body);
             continue;
         }
 
@@ -1121,7 +1122,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 h = header_read_list(&theader);
                 bounce_mail("restricted", &addr_from, &msg,
                             msgbody_rfc_to, &tbody, h);
-                free(h);
+                header_free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
                 tl_clear(&tl);
@@ -1186,7 +1187,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 fglog("BOUNCE: mail from %s without To line",
                       s_rfcaddr_to_asc(&addr_from, TRUE));
                 h = header_read_list(&theader);
-                bounce_mail("noto", &addr_from, &msg, msgbody_rfc_to, &tbody, h);
+                bounce_mail("noto", &addr_from, &msg, mail_to, &tbody, h);
                 header_free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
-- 
2.43.0


From 49444f585a570fc63cb7836ed21ed940abe191d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 18/86] fix: ftn2rfc took ErrorsTo for the FTNJunkGroup

---
 src/gate/ftn2rfc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 0ecf166..e7a745d 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1958,7 +1958,7 @@ int main(int argc, char **argv)
         ftn_junk_group_keys = areas_parse_line(p);
     }
     if ((p = cf_get_string("ErrorsTo", TRUE))) {
-        ftn_junk_group = p;
+        errors_to = p;
     }
     if (cf_get_string("NoAddressInToField", TRUE)) {
         no_address_in_to_field = TRUE;
-- 
2.43.0


From 513c2a0eab3387e7c26ca272d5dd609d6f77ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 19/86] fix: ftn2rfc read beyond the end of short Origin,
 SEEN-BY and PATH lines

---
 src/gate/ftn2rfc.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index e7a745d..ea5dd11 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -196,6 +196,15 @@ char *get_subject(Textlist * tl)
     return rfcheader_get(tl, "Subject");
 }
 
+/*
+ * Contents of a control line, skipping its tag of length len. The line
+ * can be shorter.
+ */
+static char *skip_tag(char *line, size_t len)
+{
+    return line + (strlen(line) < len ? strlen(line) : len);
+}
+
 /*
  * Test for EchoMail, return Area entry.
  */
@@ -1496,7 +1505,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
                     if ((p = strrchr(buffer, '(')))
                         *p = 0;
                     strip_space(buffer);
-                    p = buffer + strlen(" * Origin: ");
+                    p = skip_tag(buffer, strlen(" * Origin: "));
                     while (is_blank(*p))
                         p++;
                     if (strlen(p) == 0)
@@ -1588,7 +1597,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
             strip_crlf(body.origin);
             msg_xlate_line(buffer, sizeof(buffer), body.origin, ignore_soft_cr);
 
-            p = buffer + strlen(" * Origin: ");
+            p = skip_tag(buffer, strlen(" * Origin: "));
             while (is_blank(*p))
                 p++;
             tl_appendf(&theader, "X-FTN-Origin: %s\n", p);
@@ -1613,13 +1622,15 @@ int unpack(FILE * pkt_file, Packet * pkt)
             for (pl = body.seenby.first; pl; pl = pl->next) {
                 p = pl->line;
                 strip_crlf(p);
-                tl_appendf(&theader, "X-FTN-Seen-By: %s\n", p + 9);
+                tl_appendf(&theader, "X-FTN-Seen-By: %s\n",
+                           skip_tag(p, strlen("SEEN-BY: ")));
             }
         if (x_ftn_P)
             for (pl = body.path.first; pl; pl = pl->next) {
                 p = pl->line;
                 strip_crlf(p);
-                tl_appendf(&theader, "X-FTN-Path: %s\n", p + 7);
+                tl_appendf(&theader, "X-FTN-Path: %s\n",
+                           skip_tag(p, strlen("\001PATH: ")));
             }
         if (x_ftn_K) {
             for (lines = 1; buffer[lines]; lines++) {
-- 
2.43.0


From 006ef7be521303738bd2f213e1c833b1fe54d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 20/86] fix: ftn2rfc leaked an open file per bad packet

---
 src/gate/ftn2rfc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index ea5dd11..77a9bab 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1697,8 +1697,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
         msg_body_clear(&body);
         tmps_freeall();
 
-        if (cs_save)
-            xfree(cs_save);
+        xfree(cs_save);
+        cs_save = NULL;
     } /**while(type == MSG_TYPE)**/
 
     if (mail_file('n'))
@@ -1728,6 +1728,7 @@ int unpack_file(char *pkt_name)
     }
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
+        fclose(pkt_file);
         if (n_flag)
             return ERROR;
         else {
@@ -1742,6 +1743,7 @@ int unpack_file(char *pkt_name)
 
     if (unpack(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
+        fclose(pkt_file);
         if (n_flag)
             return ERROR;
         else {
-- 
2.43.0


From 8786fd28ae06650850c14ca391e20fec261c02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 21/86] fix: ftnafpkt, pkttmpl read the text of a message they
 could not parse as the next message header

---
 src/areafix/ftnafpkt.c | 5 ++++-
 src/areafix/pkttmpl.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index f7f2d1e..bb59f4a 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -214,8 +214,11 @@ int do_packet(FILE * pkt_file, Packet * pkt)
 
         /* Read & parse message body */
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK)
+            OK) {
+            /* the rest of the body is not read, can't go on */
             fglog("ERROR: parsing message body");
+            TMPS_RETURN(ERROR);
+        }
 
         /* Retrieve address information from kludges for NetMail */
         if (body.area == NULL) {
diff --git a/src/areafix/pkttmpl.c b/src/areafix/pkttmpl.c
index b67bfd7..0ac1bd5 100644
--- a/src/areafix/pkttmpl.c
+++ b/src/areafix/pkttmpl.c
@@ -108,8 +108,11 @@ int do_packet(FILE * pkt_file, Packet * pkt)
 
         /* Read & parse message body */
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK)
+            OK) {
+            /* the rest of the body is not read, can't go on */
             fglog("ERROR: parsing message body");
+            TMPS_RETURN(ERROR);
+        }
         /* Retrieve address information from kludges for NetMail */
         if (body.area == NULL) {
             /* Retrieve complete address from kludges */
-- 
2.43.0


From b6c31fd0d5a4b9e3f0dad0c396df3da88c706ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:20 +0000
Subject: [PATCH 22/86] fix: pktdebug showed the text of a message it could not
 parse as the next message

---
 src/util/pktdebug.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/pktdebug.c b/src/util/pktdebug.c
index fd1fbea..b2e443f 100644
--- a/src/util/pktdebug.c
+++ b/src/util/pktdebug.c
@@ -249,8 +249,12 @@ int main(int argc, char **argv)
                 if ((c = pkt_get_body_parse(fp, &body, &msg.node_from,
                                             &msg.node_to)) != OK)
 #endif
+                {
                     fprintf(stdout, "ERROR: %s: parsing message "
                             "body failed (%d)\n", name, c);
+                    /* the rest of the body is not read, can't go on */
+                    break;
+                }
                 if (body.area == NULL) {
                     /* NetMail */
                     n_mail++;
-- 
2.43.0


From 8cd2b842dab3f0c0cc7122cf6bc36a87f1d2a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 23/86] fix: heap overflow encoding headers with invalid UTF-8
 text

---
 src/common/mime.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index b26f207..bf22c4d 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -266,8 +266,9 @@ static void mime_strcat(struct mime_word_enc_state *state, char *str)
 {
     size_t len;
 
-    strcpy(state->encoded_line + state->pos, str);
     len = strlen(str);
+    mime_check_and_inc_size(state, len);
+    strcpy(state->encoded_line + state->pos, str);
     state->pos += len;
     state->vpos += len;
 }
@@ -275,12 +276,12 @@ static void mime_strcat(struct mime_word_enc_state *state, char *str)
 static void mime_strlcpy(struct mime_word_enc_state *state,
                          char *str, size_t len)
 {
+    mime_check_and_inc_size(state, len);
     strncpy(state->encoded_line + state->pos, str, len);
 
     state->pos += len;
     state->vpos += len;
 
-    mime_check_and_inc_size(state, 1); 
     *(state->encoded_line + state->pos) = '\0';
 }
 
@@ -340,6 +341,7 @@ static void mime_flush_reminder(struct mime_word_enc_state *state)
     if (state->rem_len == 0)
         return;
 
+    mime_check_and_inc_size(state, B64_NLET_PER_CHUNK);
     mime_b64_encode_chunk(state->encoded_line + state->pos,
                           (unsigned char *)state->rem, state->rem_len);
 
@@ -470,8 +472,10 @@ static size_t mime_get_mb_tail(struct mime_word_enc_state *state, char *p)
 	return 0;
 
     save_p = p;
+    /* invalid text can have more of them, there is no place reserved for that */
     for (c = *p;
-	 ((c & 0x80) == 0x80) && ((c & 0x40) == 0);
+	 ((c & 0x80) == 0x80) && ((c & 0x40) == 0)
+	 && p - save_p < MAX_UTF8_LEN - 1;
 	 c = *++p)
 	;
     return p - save_p;
@@ -511,6 +515,7 @@ static size_t mime_word_enc_b64(struct mime_word_enc_state *state,
 	    to_encode = left;
 	}
 
+        mime_check_and_inc_size(state, B64_NLET_PER_CHUNK);
         chunk = mime_b64_encode_chunk(state->encoded_line + state->pos,
                                       (unsigned char *)p, to_encode);
 
@@ -615,6 +620,7 @@ static void mime_qp_encode_octet(struct mime_word_enc_state *state,
 {
     size_t produced;
 
+    mime_check_and_inc_size(state, QP_NLET_MAX);
     produced = _mime_qp_encode_octet(state->encoded_line + state->pos, in);
     state->pos += produced;
     state->vpos += produced;
-- 
2.43.0


From ff7aabf6cbb106d3a73ee73a9b99d997443f43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 24/86] fix: base64 header encoding lost characters at the end
 of a line

---
 src/common/mime.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/mime.c b/src/common/mime.c
index bf22c4d..5768931 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -499,6 +499,10 @@ static size_t mime_word_enc_b64(struct mime_word_enc_state *state,
 
     done = mime_add_reminder(state, &p, &len, limit);
 
+    /* no space for the reminder on this line, must not be overwritten */
+    if (state->rem_len != 0)
+        return done;
+
     left = len;
 
     while ((left >= B64_ENC_CHUNK) && !end_of_line) {
-- 
2.43.0


From 2bba8832f079789a9b429598699d3a42ec703595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 25/86] fix: ftnpack delivered the messages before a malformed
 one again on every run

---
 src/toss/ftnpack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index c6c5014..fdc1c3e 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -640,6 +640,7 @@ int do_noarc(char *name, Node * flonode,
             fglog("$ERROR reading input packet %s", name);
             pkt_close();
             fclose(pkt_file);
+            rename_bad(name);
             TMPS_RETURN(ERROR);
         }
         /* Read message body */
@@ -648,6 +649,7 @@ int do_noarc(char *name, Node * flonode,
             fglog("$ERROR: reading input packet %s", name);
             pkt_close();
             fclose(pkt_file);
+            rename_bad(name);
             TMPS_RETURN(ERROR);
         }
 
@@ -988,6 +990,7 @@ int do_file(char *pkt_name)
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
         fclose(pkt_file);
+        rename_bad(pkt_name);
         TMPS_RETURN(severe_error);
     }
 
-- 
2.43.0


From ba1bbc8d235b5bd44eff67ae17575f6bd4ea79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 26/86] fix: MIME header encoder read beyond the end of text
 with leading spaces

---
 src/common/mime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 5768931..8a34d66 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -326,7 +326,7 @@ static size_t mime_word_calc_len(struct mime_word_enc_state *state,
             encoded_len = len;
         } else {
             encoded_len = 1 +   /* space */
-                strlen(MIME_HEADER_CODE_START) + charset_len + strlen(MIME_HEADER_CODE_MIDDLE_B64) + state->calc_len(p, len);   /* without spaces */
+                strlen(MIME_HEADER_CODE_START) + charset_len + strlen(MIME_HEADER_CODE_MIDDLE_B64) + state->calc_len(p, len - (p - token));   /* without spaces */
         }
     }
 
-- 
2.43.0


From 77e10f1a511ee382fa635122b6b7204c8550d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 27/86] fix: area without or with impossible name was created
 and crashed the tosser

---
 src/areafix/areafix.c | 7 ++++++-
 src/toss/ftntoss.c    | 8 ++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index c9cc6db..797922e 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -732,6 +732,10 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     }
 
     name = xstrtok(line, " \t");
+    if (!name || !*name) {
+        areafix_printf("No area name given, can't create new one.");
+        return ERROR;
+    }
 
     if ((p = areasbbs_lookup(name))) {
         areafix_printf("%-41s: area already exists,\r\n"
@@ -825,7 +829,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             asc_to_node(o2, &p->addr, FALSE);
         }
         if (streq(o1, "-s")) {  /* -s STATE */
-            o2 = xstrtok(NULL, " \t");
+            if (!(o2 = xstrtok(NULL, " \t")))
+                break;
             p->state = strsave(o2);
         }
         if (streq(o1, "-e")) {  /* -e DAYS */
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 45bb77f..fd92cec 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -808,6 +808,14 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
             return OK;
         }
 
+        /* areas.bbs is split at blanks, no area can have such name */
+        if (!*areaname || strpbrk(areaname, " \t\"")) {
+            fglog("area name \"%s\" from %s invalid, not created", areaname,
+                  znfp1(&msg->node_from));
+            do_unknown_area(areaname, msg, body);
+            return OK;
+        }
+
         if (areafix_check_forbidden_area(areaname)) {
             fglog("area %s is forbidden to create", areaname);
             /* Unknown area */
-- 
2.43.0


From db77992030846ee566be25742dfd40568422acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 28/86] fix: charset recoding overflowed the buffer with
 invalid text and lost the string end

---
 src/common/charset.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/charset.c b/src/common/charset.c
index ad3df3c..c1abce6 100644
--- a/src/common/charset.c
+++ b/src/common/charset.c
@@ -318,11 +318,12 @@ static int _charset_recode_iconv(char **res, size_t *res_len,
     desc = iconv_open(to, from);
     if (desc == (iconv_t) - 1) {
         debug(6, "WARNING: iconv cannot convert from %s to %s", from, to);
+        free(to);
         return ERROR;
     }
 
     dst_size = src_len;
-    dst = xmalloc(dst_size);
+    dst = xmalloc(dst_size + 1);        /* always terminated, see below */
     cur = dst;
     cur_size = dst_size;
 
@@ -331,7 +332,7 @@ static int _charset_recode_iconv(char **res, size_t *res_len,
         if (rc != -1)
             break;
 
-        if (errno != E2BIG) {
+        if (errno != E2BIG && cur_size > 0) {
             src++;
             src_len--;
             *cur++ = '?';
@@ -341,7 +342,7 @@ static int _charset_recode_iconv(char **res, size_t *res_len,
 
         /* after iconv call cur_size contains size of unused space */
         dst_len = dst_size - cur_size;
-        dst = xrealloc(dst, dst_size + inc);
+        dst = xrealloc(dst, dst_size + inc + 1);
         dst_size += inc;
         cur = dst + dst_len;
         /* unused + new */
@@ -354,6 +355,8 @@ static int _charset_recode_iconv(char **res, size_t *res_len,
      */
     iconv(desc, NULL, NULL, &cur, &cur_size);
     dst_len = dst_size - cur_size;
+    /* the \0 of the source can be lost, f.e. from = UTF-16 */
+    dst[dst_len] = '\0';
     iconv_close(desc);
     free(to);
 
-- 
2.43.0


From 85ba87201406acc9ab2ffd9ec9bcbd3d0947be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 29/86] fix: MIME body decoding: lost parts, blank and short
 lines, underscores, crashes on malformed structure

---
 src/common/mime.c      | 470 +++++++++++++++++++++--------------------
 src/common/rfcheader.c |   2 +-
 src/common/textlist.c  |   4 +-
 3 files changed, 247 insertions(+), 229 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 8a34d66..bcd84e0 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -987,72 +987,48 @@ void mime_qp_encode_tl(Textlist * in, Textlist * out)
     tl_append(out, buf);
 }
 
+/*
+ * Decode Q-encoded word of a header (rfc 2047)
+ */
 int mime_qp_decode(char **dst, char *src, size_t len)
 {
     char *buf;
     size_t i;
     int vh, vl;
     char *d;
-    char *p1, *p2;
-    int j;
-    int rc = OK;
-
-    p1 = src;
-    j = 0;
-    while (NULL != (p2 = strchr(p1, '_'))) {
-        p1 = ++p2;
-        j++;
-    }
 
     buf = xmalloc(len + 1);
-    memset(buf, 0, len + 1);
-
-    i = 0;
     d = buf;
-    while (len > i) {
-        if (src[i] == '\n' || src[i] == '\r') {
-            *d = '\n';
-            break;
-        }
 
+    for (i = 0; i < len; i++) {
         if ('_' == src[i]) {
             *d++ = ' ';
-            i++;
             continue;
         }
 
         if ('=' != src[i]) {
-            *d++ = src[i++] & 0x7F;
+            *d++ = src[i];
             continue;
         }
 
-        i++;
-
-        if (src[i] == '\n' || src[i] == '\r') {
-            *d = '\n';
-            break;
-        }
-
-        vh = mime_qptoint(src[i++]);
-        if (ERROR == vh) {
-            rc = ERROR;
-            break;
-        }
+        if (len - i < QP_NLET_MAX)
+            goto fail;
 
-        vl = mime_qptoint(src[i++]);
-        if (ERROR == vl) {
-            rc = ERROR;
-            break;
-        }
+        vh = mime_qptoint(src[++i]);
+        vl = mime_qptoint(src[++i]);
+        if (ERROR == vh || ERROR == vl)
+            goto fail;
 
         *d++ = (char)(((vh << 4) & 0xf0) | (vl & 0x0f));
     }
 
-    if (ERROR == rc)
-        xfree(buf);
-    else
-        *dst = buf;
-    return rc;
+    *d = '\0';
+    *dst = buf;
+    return OK;
+
+ fail:
+    xfree(buf);
+    return ERROR;
 }
 
 /*
@@ -1134,14 +1110,15 @@ static int mime_handle_mimed_word(char *s, char **out, size_t *out_len,
 
  fallback:
     /*
-     * Keep it as is.
+     * Keep the word as is.
      * Will work correctly with utf-8 plain headers, iconv and utf-8
      * internal charset.
      */
     debug(6, "Could not unmime subject '%s', leaving as is", s);
-    len = strlen(s);
-    *out = xmalloc(len);
-    memcpy(*out, s, len);       /* no '\0' */
+    len = strcspn(s, " \t");
+    *out = xmalloc(len + 1);
+    memcpy(*out, s, len);
+    (*out)[len] = '\0';
     snprintf(charset, ch_size, "%s", to);
     *is_mime = false;
     *out_len = len;
@@ -1295,14 +1272,24 @@ char *mime_header_dec(char *d, size_t d_max, char *s, char *to,
             *d++ = ' ';
             d_left--;
 
-            if (d_left == 0)
+            if (d_left == 0) {
+                free(buf);
                 break;
+            }
+        }
+
+        /* empty mime word */
+        if (len == 0) {
+            free(buf);
+            s += s_handled;
+            continue;
         }
 
         debug(6, "header charset: %s", charset);
         rc = charset_recode_buf(&recoded, &recoded_len, buf, len, charset, to);
         if (rc != OK) {
             debug(6, "Could not recode header %s", buf);
+            free(buf);
             goto out;
         }
 
@@ -1354,15 +1341,32 @@ static char* mime_fetch_attribute(char *str, char *attr)
 }
 */
 
+/*
+ * Split header to the value and the attributes, ';' can be quoted
+ */
 static int mime_parse_header(Textlist * line, char *str)
 {
-    char *p = NULL;
+    char *p, *next;
+    bool quoted = false;
 
     if (line == NULL || str == NULL)
         return ERROR;
 
     debug(6, "Parsing header %s", str);
-    for (p = strtok(str, ";"); p != NULL; p = strtok(NULL, ";")) {
+    for (p = next = str; p != NULL; p = next) {
+        for (; *next != '\0' && (quoted || *next != ';'); next++) {
+            if (*next == '\"')
+                quoted = !quoted;
+        }
+
+        if (*next == ';')
+            *next++ = '\0';
+        else
+            next = NULL;
+
+        if (*p == '\0')
+            continue;
+
         debug(6, "Recording header attribute %s", p);
         p = strip_space(p);
         tl_append(line, p);
@@ -1378,16 +1382,21 @@ static char *mime_attr_value(char *str)
         return NULL;
 
     p = strchr(str, '=');
-    if (p != NULL) {
-        if (*(++p) == '\"')
-            p++;
+    if (p == NULL)
+        return strsave("");
+
+    for (p++; is_space(*p); p++) ;
+
+    if (*p == '\"') {
+        p++;
+        q = p + strcspn(p, "\"");
+    } else {
         for (q = p; *q != '\0'; q++)
             if (*q == '\"' || is_space(*q))
                 break;
-        *q = 0;
-        p = strsave(p);
     }
-    return p;
+    *q = 0;
+    return strsave(p);
 }
 
 /*
@@ -1423,13 +1432,15 @@ static MIMEInfo *get_mime_disposition(char *ver, char *type, char *enc,
         tmp_line = tl_get(&header_line, "charset", strlen("charset"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->type_charset = s_copy(tmp_str);
+            if (*tmp_str)
+                mime->type_charset = s_copy(tmp_str);
             xfree(tmp_str);
         }
         tmp_line = tl_get(&header_line, "boundary", strlen("boundary"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->type_boundary = s_copy(tmp_str);
+            if (*tmp_str)
+                mime->type_boundary = s_copy(tmp_str);
             xfree(tmp_str);
         }
         tl_clear(&header_line);
@@ -1487,226 +1498,229 @@ MIMEInfo *get_mime_from_header(RFCHeader *header)
                                                   "Content-Disposition"));
 }
 
-/* Garantee [^\r]\n\0 in the end of string since our
-   output subroutine adds '\r'
-   str should have space for 1 extra symbol */
+/*
+ * Append decoded text to the body, splitting it to lines.
+ * Every line ends with \n, no \r before it.
+ */
+static void mime_debody_append_lines(Textlist *body, char *str)
+{
+    char *line;
+    char *end;
+    size_t len;
+
+    for (; *str != '\0'; str = end) {
+        len = strcspn(str, "\n");
+        end = str + len;
+        if (*end == '\n')
+            end++;
+
+        if (len > 0 && str[len - 1] == '\r')
+            len--;
+
+        line = xmalloc(len + 2);
+        memcpy(line, str, len);
+        line[len] = '\n';
+        line[len + 1] = '\0';
+        tl_append(body, line);
+        xfree(line);
+    }
+}
 
-static char *mime_debody_flush_str(Textlist * body, char *str)
+/*
+ * Decode quoted-printable line of a body (rfc 2045), invalid sequences
+ * are left as is. Returns true if the line continues in the next one
+ */
+static bool mime_qp_decode_line(char *dst, char *src)
 {
-    int len;
-    if (str == NULL || body == NULL)
-        return NULL;
+    int vh, vl;
 
-    len = strlen(str);
-    if (len < 2)
-        return NULL;
+    while (*src != '\0') {
+        if (*src != '=') {
+            *dst++ = *src++;
+            continue;
+        }
 
-    if (str[len - 2] == '\r') {
-        str[len - 2] = '\n';
-        str[len - 1] = '\0';
-    } else if (str[len - 1] != '\n') {
-        str[len] = '\n';
-        str[len + 1] = '\0';
-    }
+        /* soft line break, transport may add trailing spaces */
+        if (src[1 + strspn(src + 1, " \t\r\n")] == '\0') {
+            *dst = '\0';
+            return true;
+        }
 
-    tl_append(body, str);
-    str[0] = '\0';
+        vh = mime_qptoint(src[1]);
+        vl = vh == ERROR ? ERROR : mime_qptoint(src[2]);
+        if (vl == ERROR) {
+            *dst++ = *src++;
+            continue;
+        }
+
+        src += QP_NLET_MAX;
+        /* not possible in text */
+        if (vh != 0 || vl != 0)
+            *dst++ = (char)((vh << 4) | vl);
+    }
 
-    return str;
+    *dst = '\0';
+    return false;
 }
 
 static Textlist *mime_debody_qp(Textlist * body)
 {
-    char *dec_str, *tmp_str;
-    long len;
-
     Textlist *dec_body;
-    Textlist *full_line;
-
-    Textline *line, *subline;
+    Textline *line;
+    char *buf;
+    size_t pos = 0;
 
     dec_body = xmalloc(sizeof(*dec_body));
-    memset(dec_body, 0, sizeof(*dec_body));
+    tl_init(dec_body);
 
-    full_line = xmalloc(sizeof(*full_line));
-    memset(full_line, 0, sizeof(*full_line));
+    /* decoded is never longer */
+    buf = xmalloc(tl_size(body) + 1);
+    buf[0] = '\0';
 
     for (line = body->first; line != NULL; line = line->next) {
-        len = strlen(line->line);
-        if (mime_qp_decode(&dec_str, line->line, len) == ERROR)
-            goto fail;
-
-        strip_crlf(dec_str);
-        tl_append(full_line, dec_str);
-        xfree(dec_str);
-
-        if (streq(line->line + (len - 2), "=\n")
-            || streq(line->line + (len - 3), "=\r\n"))
+        if (mime_qp_decode_line(buf + pos, line->line)) {
+            pos += strlen(buf + pos);
+            continue;
+        }
+        pos += strlen(buf + pos);
+        /* piece of a very long line */
+        if (pos > 0 && buf[pos - 1] != '\n' && line->next != NULL)
             continue;
 
-        len = tl_size(full_line);
-
-        tmp_str = xmalloc(len + 2);
-        memset(tmp_str, 0, len + 2);
-
-        for (subline = full_line->first; subline != NULL;
-             subline = subline->next)
-            strcat(tmp_str, subline->line);
-
-        tmp_str[len] = '\n';
-
-        tl_append(dec_body, tmp_str);
-        xfree(tmp_str);
-        tl_clear(full_line);
+        mime_debody_append_lines(dec_body, buf);
+        pos = 0;
+        buf[0] = '\0';
     }
 
-    tl_clear(full_line);
-    xfree(full_line);
-    return dec_body;
+    mime_debody_append_lines(dec_body, buf);
 
- fail:
-    fglog("ERROR: decoding quoted-printable, skipping section");
-    tl_clear(dec_body);
-    xfree(dec_body);
-    tl_clear(full_line);
-    xfree(full_line);
-    return NULL;
+    xfree(buf);
+    return dec_body;
 }
 
-/* decode base64 body */
+/* decode base64 body, characters out of the alphabet are ignored (rfc 2045) */
 
 static Textlist *mime_debody_base64(Textlist * body)
 {
-    char *out_str;
-    char *dec_str;
-    char *out_ptr;
-    char *dec_ptr, *dec_prev_ptr;
-    char *to_free;
-
-    Textlist *dec_body = NULL;
+    Textlist *dec_body;
     Textline *line;
-
-    int max_len = MAX_LINE_LENGTH;
-    int left;
-    int enc_len = 0, dec_str_len = 0;
+    char *buf;
+    char *p;
+    size_t pos = 0;
+    unsigned acc = 0;
+    int bits = 0;
+    int v;
 
     dec_body = xmalloc(sizeof(*dec_body));
-    memset(dec_body, 0, sizeof(*dec_body));
+    tl_init(dec_body);
 
-    /* len + \n + \0 */
-    out_ptr = out_str = xmalloc(max_len + 2);
-    out_str[0] = '\0';
-    left = max_len;
+    /* decoded is never longer */
+    buf = xmalloc(tl_size(body) + 1);
 
     for (line = body->first; line != NULL; line = line->next) {
-
-        enc_len = (xstrnlen(line->line, MIME_ENC_STRING_LIMIT) / 4) * 4;
-        if (mime_b64_decode(&dec_str, line->line, enc_len) == ERROR)
-            goto exit;
-
-	to_free = dec_str;
-
-        dec_prev_ptr = dec_str;
-        while ((dec_ptr = strchr(dec_prev_ptr, '\n')) != NULL) {
-            dec_str_len = dec_ptr - dec_prev_ptr + 1;
-            if (dec_str_len <= left) {
-                strncat(out_str, dec_prev_ptr, dec_str_len);
-                dec_prev_ptr = dec_ptr + 1;
-            } else {
-                strncat(out_str, dec_prev_ptr, left);
-                dec_prev_ptr += left;
+        for (p = line->line; *p != '\0'; p++) {
+            v = mime_b64toint(*p);
+            if (v == ERROR)
+                continue;
+
+            if (v == 0x40) {
+                /* padding, drop incomplete octet */
+                bits = 0;
+                continue;
             }
 
-            mime_debody_flush_str(dec_body, out_str);
-            left = max_len;
-        }
-
-        dec_str_len = strlen(dec_str) - (dec_prev_ptr - dec_str);
-        do {
-            if (dec_str_len < left) {
-                strncat(out_str, dec_prev_ptr, dec_str_len);
-                out_ptr += dec_str_len;
-                left -= dec_str_len;
-                dec_str_len = 0;
-            } else {
-                strncat(out_str, dec_prev_ptr, left);
-                dec_prev_ptr += left;
-                dec_str_len -= left;
-
-                mime_debody_flush_str(dec_body, out_str);
-                left = max_len;
-
-            }
-        } while (dec_str_len > 0);
+            acc = ((acc << 6) | v) & 0xffff;
+            bits += 6;
+            if (bits < 8)
+                continue;
 
-	free(to_free);
+            bits -= 8;
+            buf[pos] = (char)(acc >> bits);
+            /* \0 is not possible in text */
+            if (buf[pos] != '\0')
+                pos++;
+        }
     }
-    if (left != max_len)
-        mime_debody_flush_str(dec_body, out_str);
+    buf[pos] = '\0';
 
- exit:
-    xfree(out_str);
+    mime_debody_append_lines(dec_body, buf);
+
+    xfree(buf);
     return dec_body;
 }
 
+/* multipart inside of multipart */
+#define MIME_MAX_DEPTH 32
+
 static Textlist *mime_debody_section(Textlist *body, RFCHeader* header,
-                                     char *to, char *ch_fallback);
+                                     char *to, char *ch_fallback, int depth);
 
-static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
-                                       char *to, char *ch_fallback)
+/* Checks for delimiter line --boundary or --boundary-- */
+static bool mime_is_boundary(char *line, char *boundary, bool *final)
 {
-    RFCHeader *header;
-    Textline *line;
+    size_t len = strlen(boundary);
 
-    Textlist *dec_body, *ptr_body, tmp_body = { NULL, NULL };
+    if (!strneq(line, "--", 2) || !strneq(line + 2, boundary, len))
+        return false;
 
-    char *boundary = NULL;
-    char *fin_boundary = NULL;
+    line += 2 + len;
+    *final = strneq(line, "--", 2);
+    if (*final)
+        return true;
 
-    if (mime->type_boundary == NULL)
-        return NULL;
+    return line[strspn(line, " \t\r\n")] == '\0';
+}
 
-    dec_body = xmalloc(sizeof(*dec_body));
-    dec_body->first = NULL;
-    dec_body->last = NULL;
+static void mime_debody_part(Textlist *dec_body, Textlist *part,
+                             char *to, char *ch_fallback, int depth)
+{
+    RFCHeader *header;
+    Textlist *ptr_body;
 
-    /* --boundary\0 */
-    boundary = xmalloc(strlen(mime->type_boundary) + 3);
-    strcpy(boundary, "--");
-    strcat(boundary, mime->type_boundary);
+    header = header_read_list(part);
+    header_delete_from_body(part);
 
-    /* --boundary--\0 */
-    fin_boundary = xmalloc(strlen(boundary) + 3);
-    strcpy(fin_boundary, boundary);
-    strcat(fin_boundary, "--");
+    ptr_body = mime_debody_section(part, header, to, ch_fallback, depth + 1);
+    if (ptr_body != NULL) {
+        tl_addtl_move(dec_body, ptr_body);
+        xfree(ptr_body);
+    }
+    tl_clear(part);
+    header_free(header);
+}
 
-    for (line = body->first; line != NULL; line = line->next)
-        if (strneq(line->line, boundary, strlen(boundary)))
-            break;
+static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
+                                       char *to, char *ch_fallback, int depth)
+{
+    Textline *line;
+    Textlist *dec_body, tmp_body;
+    bool inside = false;
+    bool final = false;
 
-    for (line = line->next; line != NULL; line = line->next) {
-        if (!strneq(line->line, boundary, strlen(boundary))) {
-            tl_append(&tmp_body, line->line);
-        } else {
-            header = header_read_list(&tmp_body);
-            header_delete_from_body(&tmp_body);
-
-            ptr_body = mime_debody_section(&tmp_body, header, to, ch_fallback);
-            if (ptr_body != NULL) {
-                tl_addtl_move(dec_body, ptr_body);
-                if (ptr_body != &tmp_body)
-                    xfree(ptr_body);
-            }
-            tl_clear(&tmp_body);
-            header_free(header);
+    if (mime->type_boundary == NULL)
+        return NULL;
 
-            if (strneq(line->line, fin_boundary, strlen(fin_boundary)))
-                break;
+    dec_body = xmalloc(sizeof(*dec_body));
+    tl_init(dec_body);
+    tl_init(&tmp_body);
+
+    for (line = body->first; line != NULL && !final; line = line->next) {
+        if (!mime_is_boundary(line->line, mime->type_boundary, &final)) {
+            /* the text before the first delimiter is ignored */
+            if (inside)
+                tl_append(&tmp_body, line->line);
+            continue;
         }
+
+        if (inside)
+            mime_debody_part(dec_body, &tmp_body, to, ch_fallback, depth);
+        inside = true;
     }
 
-    xfree(boundary);
-    xfree(fin_boundary);
+    /* no final delimiter */
+    if (inside && !final && tmp_body.first != NULL)
+        mime_debody_part(dec_body, &tmp_body, to, ch_fallback, depth);
+
     return dec_body;
 }
 
@@ -1747,7 +1761,7 @@ static int mime_decharset_section(Textlist * body, MIMEInfo * mime, char *to)
 }
 
 static Textlist *mime_debody_section(Textlist *body, RFCHeader *header,
-                                     char *to, char *ch_fallback)
+                                     char *to, char *ch_fallback, int depth)
 {
 
     Textlist *dec_body;
@@ -1760,7 +1774,8 @@ static Textlist *mime_debody_section(Textlist *body, RFCHeader *header,
     if ((mime->type_type == NULL) || strieq(mime->type_type, "text/plain")
         || (mime->type == NULL)) {
         if ((mime->encoding == NULL) || strieq(mime->encoding, "8bit")
-            || strieq(mime->encoding, "7bit")) {
+            || strieq(mime->encoding, "7bit")
+            || strieq(mime->encoding, "binary")) {
 
             dec_body = tl_dup(body);
 
@@ -1776,8 +1791,9 @@ static Textlist *mime_debody_section(Textlist *body, RFCHeader *header,
         }
         mime_decharset_section(dec_body, mime, to);
     } else if(strnieq(mime->type_type,
-		      "multipart/", sizeof("multipart/") - 1)) {
-        dec_body = mime_debody_multipart(body, mime, to, ch_fallback);
+		      "multipart/", sizeof("multipart/") - 1)
+              && depth < MIME_MAX_DEPTH) {
+        dec_body = mime_debody_multipart(body, mime, to, ch_fallback, depth);
     } else {
         fglog("WARNING: Skipped unsupported mime type %s, msg %s",
               mime->type_type, s_header_getcomplete(header, "Message-ID"));
@@ -1795,7 +1811,7 @@ Textlist *mime_body_dec(Textlist *body, RFCHeader *header,
 {
     Textlist *dec_body;
 
-    dec_body = mime_debody_section(body, header, to, ch_fallback);
+    dec_body = mime_debody_section(body, header, to, ch_fallback, 0);
     if (dec_body == NULL)
         return NULL;
 
diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index 66d575d..ebf9022 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -254,7 +254,7 @@ int header_delete_from_body(Textlist * body)
     if (body == NULL)
         return ERROR;
 
-    for (line = body->first;; line = body->first) {
+    for (line = body->first; line != NULL; line = body->first) {
         buf = line->line;
         if (*buf == '\r' || *buf == '\n') {
             tl_delete(body, line);
diff --git a/src/common/textlist.c b/src/common/textlist.c
index bc13e0f..7cdc4a4 100644
--- a/src/common/textlist.c
+++ b/src/common/textlist.c
@@ -233,8 +233,10 @@ void tl_addtl_move(Textlist *d, Textlist *s)
 {
     if (!d->first)
         *d = *s;
-    else {
+    else if (s->first) {
         d->last->next = s->first;
+        s->first->prev = d->last;
+        d->last = s->last;
         d->n += s->n;
     }
     tl_init(s);
-- 
2.43.0


From 2e6b522993dfe54c0856637785c550be26255968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 30/86] fix: message text with CR LF pairs and empty lines was
 written with missing line ends

---
 src/common/packet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/packet.c b/src/common/packet.c
index dd44f34..e993a95 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -552,6 +552,7 @@ void pkt_put_line(FILE * fp, char *s)
         if (*s == '\n') {
             if (!met_cr)
                 putc('\r', fp);
+            met_cr = false;
             continue;
         }
 
-- 
2.43.0


From 9ebf7b10fc26751eb84601b4116271fe254668be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 31/86] fix: control characters in RFC headers got to the FTN
 message

---
 src/common/rfcheader.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index ebf9022..2f0ed81 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -163,6 +163,18 @@ static void header_append(RFCHeader *header, char *line)
     tl_append(&header->headers, line);
 }
 
+/*
+ * Control characters must not get to the headers, they have special meaning
+ * in FTN messages. ESC may be part of the charset's encoding.
+ */
+static void header_strip_ctrl(char *s)
+{
+    for (; *s; s++)
+        if (((unsigned char)*s < ' ' && *s != '\t' && *s != '\033')
+            || *s == '\177')
+            *s = ' ';
+}
+
 /*
  * header_read() --- read header lines from file
  */
@@ -184,6 +196,7 @@ RFCHeader *header_read(FILE *file)
         if (*buf == '\r' || *buf == '\n')
             break;
         strip_crlf(buf);
+        header_strip_ctrl(buf);
         if (is_blank(buf[0])) {
             BUF_APPEND(queue, buf);
         } else {
@@ -525,6 +538,7 @@ RFCHeader *header_decode(RFCHeader *header, char *to, char *ch_fallback)
 
         mime_header_dec(buffer, sizeof(buffer), line->line,
                         to, ch_fallback, header);
+        header_strip_ctrl(buffer);
         header_append(decoded, buffer);
     }
 
-- 
2.43.0


From 48381343fac9573be1e9d9e9ec0e20db75ca6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 32/86] fix: mail with empty body was refused

---
 src/common/mime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index bcd84e0..2068b7f 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1815,7 +1815,7 @@ Textlist *mime_body_dec(Textlist *body, RFCHeader *header,
     if (dec_body == NULL)
         return NULL;
 
-    if (dec_body->first == NULL) {
+    if (dec_body->first == NULL && body->first != NULL) {
         fglog("ERROR: could not decode mime body");
         xfree(dec_body);
         return NULL;
-- 
2.43.0


From 418834f73d5801337709d0011d410111a007721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 33/86] fix: rfc2ftn: body lines acted as FTN control
 information, wrong split count, bad TZUTC and batch sizes

---
 src/gate/rfc2ftn.c | 87 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index a527569..525105c 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -758,6 +758,9 @@ static char *get_charset_from_header(RFCHeader *h)
     if (kludge == NULL)
         return NULL;
 
+    /* the header is used several times */
+    kludge = s_copy(kludge);
+
     /* 'CHRS:' */
     p = strtok_r(kludge, " \t", &save);
     if (p == NULL)
@@ -867,6 +870,9 @@ static void rfc2ftn_add_tzutc(FILE *f, char *tz)
 	len--;
     }
 
+    if (strspn(*tz == '-' ? tz + 1 : tz, "0123456789") != 4)
+	goto fallback;
+
     /* tz may contain tz name from rfc, cut it */
     snprintf(tz_buf, len, "%s", tz);
     fprintf(f, "%4s\r", tz_buf);
@@ -876,6 +882,50 @@ fallback:
     fprintf(f, "%s\r", date("%N", NULL));
 }
 
+static char last_char(char *s)
+{
+    return *s ? s[strlen(s) - 1] : '\0';
+}
+
+/*
+ * Write text of the body. Lines looking like FTN control information are
+ * changed not to act as such. bol is set at the beginning of the line, area at
+ * the place where the AREA: line is possible.
+ */
+static void put_body_text(FILE *fp, char *text, bool *bol, bool *area)
+{
+    char *s;
+    char *p;
+    char *end;
+    size_t len;
+
+    s = s_copy(text);
+
+    for (p = s; *p; p = end) {
+        if (*bol) {
+            /* several \001 in case the first ones are stripped */
+            for (len = 0; p[len] == '\001'; len++)
+                p[len] = '@';
+
+            if (!strncmp(p, "---", 3) && (strchr(" \r\n", p[3]) || !p[3]))
+                p[1] = '+';
+            else if (!strncmp(p, " * Origin:", 10))
+                p[1] = '+';
+            else if (!strncmp(p, "SEEN-BY", 7))
+                p[4] = '+';
+            else if (*area && !strncmp(p, "AREA:", 5))
+                p[4] = '+';
+            *area = false;
+        }
+
+        len = strcspn(p, "\r\n");
+        *bol = p[len] != '\0';
+        end = p + len + strspn(p + len, "\r\n");
+    }
+
+    pkt_put_line(fp, s);
+}
+
 static int snd_message(Message * msg, Area * parea,
                        RFCAddr rfc_from, RFCAddr rfc_to, char *subj,
                        long size, char *flags, int fido, MIMEInfo * mime,
@@ -915,6 +965,7 @@ static int snd_message(Message * msg, Area * parea,
     char *pt = NULL;
     Textlist *dec_body;
     char *organization = NULL;
+    bool bol, area_possible;
 
     /*
      * X-Flags settings
@@ -976,7 +1027,7 @@ static int snd_message(Message * msg, Area * parea,
     /* Decode and recode (charset) the body */
     dec_body = mime_body_dec(&body, h, ci->ftn, ci->default_rfc);
     if (dec_body == NULL)
-        return ERROR;
+        return EX_DATAERR;
 
     /*
      * Compute number of split messages if any
@@ -988,9 +1039,9 @@ static int snd_message(Message * msg, Area * parea,
         lsize = 0;
         for (p = dec_body->first; p; p = p->next) {
             lsize += strlen(p->line);   /* Length incl. <LF> */
-            if (BUF_LAST(p->line) == '\n')  /* <LF> ->           */
+            if (last_char(p->line) == '\n')  /* <LF> ->           */
                 lsize++;        /* <CR><LF>          */
-            if (lsize > maxsize) {
+            if (lsize > maxsize && p->next) {
                 split++;
                 lsize = 0;
             }
@@ -1243,22 +1294,17 @@ static int snd_message(Message * msg, Area * parea,
             organization = s_header_getcomplete(h, "Organization");
 
     lsize = 0;
+    bol = true;
+    area_possible = !add_empty;
     while (p) {
-        snprintf(buffer, sizeof(buffer), "%s", p->line);
-
-        if (!strncmp(buffer, "--- ", 4))
-            buffer[1] = '+';
-        else if (!strncmp(buffer, " * Origin:", 10))
-            buffer[1] = '+';
-        else if (!strncmp(buffer, "SEEN-BY", 7))
-            buffer[4] = '+';
-
-        pkt_put_line(sf, buffer);
-        lsize += strlen(buffer);    /* Length incl. <LF> */
-        if (BUF_LAST(buffer) == '\n')   /* <LF> ->           */
+        put_body_text(sf, p->line, &bol, &area_possible);
+        lsize += strlen(p->line);    /* Length incl. <LF> */
+        if (last_char(p->line) == '\n')   /* <LF> ->           */
             lsize++;            /* <CR><LF>          */
 
-        if (split && lsize > maxsize) {
+        if (split && lsize > maxsize && p->next) {
+            if (!bol)
+                putc('\r', sf);
             print_tear_line(sf, h);
             if (newsmode) {
                 char *origin;
@@ -1287,6 +1333,9 @@ static int snd_message(Message * msg, Area * parea,
         line++;
     }
 
+    if (!bol)
+        putc('\r', sf);
+
     /*
      * If message is for echo mail (-n flag) then add
      * tear, origin, seen-by and path line.
@@ -2340,11 +2389,15 @@ int main(int argc, char **argv)
         /* News batch, separated by #! rnews SIZE */
         if (b_flag) {
             size = read_rnews_size(fpart);
-            if (size == -1)
+            if (size == -1) {
                 fglog("ERROR: reading news batch");
+                status = EX_DATAERR;
+            }
             if (size <= 0)
                 break;
             debug(3, "Batch: message #%ld size %ld", nmsg, size);
+            /* body only, counted below */
+            size = 0;
         }
 
         /* Read message header from fpart */
-- 
2.43.0


From 234eb4021c40dc2b0f82b5890410a9217e72435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 34/86] fix: RFC-X kludges and tear line were recoded twice

---
 src/common/rfcheader.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index 2f0ed81..116c55e 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -65,11 +65,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
                 }
             }
             if (ok)
-#ifndef RECODE_ALL_RFC
                 fprintf(out, "\001RFC-%s\r\n", p->line);
-#else
-                fprintf(out, "\001RFC-%s\r\n", xlat_s(p->line, NULL));
-#endif                          /* RECODE_ALL_RFC */
         }
     }
 
@@ -82,11 +78,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
         crlf = "";
         for (p = headers->first; p; p = p->next) {
             if (*p->line && !is_space(p->line[0])) {
-#ifndef RECODE_ALL_RFC
                 fprintf(out, "%s\001RFC-%s", crlf, p->line);
-#else
-                fprintf(out, "%s\001RFC-%s", crlf, xlat_s(p->line, NULL));
-#endif                          /* RECODE_ALL_RFC */
             } else {
                 for (i = 0; is_space(p->line[i]); i++) ;
                 fprintf(out, " %s", &(p->line[i]));
@@ -118,11 +110,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
                     }
                 }
                 if (ok)
-#ifndef RECODE_ALL_RFC
                     fprintf(out, "%s\001RFC-%s", crlf, p->line);
-#else
-                    fprintf(out, "%s\001RFC-%s", crlf, xlat_s(p->line, NULL));
-#endif                          /* RECODE_ALL_RFC */
 
             } else {
                 if (ok) {
-- 
2.43.0


From c1dde0113250097baa9c49467fc7a4e2bd314507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 35/86] fix: rfc2ftn: crash mail and attaches went to the
 previous node's packet, newsgroup list spaces, duplicates and truncation

---
 src/gate/rfc2ftn.c | 103 +++++++++++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 40 deletions(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 525105c..af105ef 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -948,6 +948,9 @@ static int snd_message(Message * msg, Area * parea,
     static int nmsg = 0;
     static int last_zone = -1;  /* Zone address of last packet */
     static FILE *sf;            /* Packet file */
+    static bool last_direct;    /* Last packet is for the outbound */
+    static Node last_node;      /* ... of the node */
+    static char last_flav[16];  /* ... with the flavor */
     char *header;
     int part = 1, line = 1, split;
     long maxsize;
@@ -966,6 +969,10 @@ static int snd_message(Message * msg, Area * parea,
     Textlist *dec_body;
     char *organization = NULL;
     bool bol, area_possible;
+    int crash = msg->attr & MSG_CRASH;
+    bool direct = w_flag || (W_flag && crash);
+    char *flav = crash ? "Crash" : w_flag;
+    Node nn = crash ? msg->node_to : cf_n_uplink();
 
     /*
      * X-Flags settings
@@ -983,52 +990,62 @@ static int snd_message(Message * msg, Area * parea,
     /* used for xlat, now only for config values */
     charset_set_in_out(ci->rfc, ci->ftn);
 
+    /* Decode and recode (charset) the body */
+    dec_body = mime_body_dec(&body, h, ci->ftn, ci->default_rfc);
+    if (dec_body == NULL)
+        return EX_DATAERR;
+
+    /* Crash mail for a point via its boss */
+    nn.point = 0;
+
     /*
      * Open output packet
      */
     if (pkt_isopen()
         && (single_pkts || (!o_flag && cf_zone() != last_zone)
-            || (maxmsg && nmsg >= maxmsg))) {
+            || (maxmsg && nmsg >= maxmsg)
+            || (!o_flag && direct != last_direct)
+            || (!o_flag && direct && (!node_eq(&nn, &last_node)
+                                      || strcmp(flav, last_flav))))) {
         pkt_close();
         nmsg = 0;
     }
     if (!pkt_isopen()) {
-        int crash = msg->attr & MSG_CRASH;
-        char *p;
+        if (direct)
+            sf = pkt_open(o_flag, &nn, flav, TRUE);
+        else
+            sf = pkt_open(o_flag, NULL, NULL, FALSE);
 
-        if (w_flag || (W_flag && crash)) {
-            char *flav = crash ? "Crash" : w_flag;
-            Node nn = crash ? msg->node_to : cf_n_uplink();
+        if (sf == NULL) {
+            tl_free(dec_body);
+            return EX_CANTCREAT;
+        }
 
-            /* Crash mail for a point via its boss */
-            nn.point = 0;
-            if ((sf = pkt_open(o_flag, &nn, flav, TRUE)) == NULL)
-                return EX_CANTCREAT;
+        last_direct = direct;
+        if (direct) {
+            last_node = nn;
+            BUF_COPY(last_flav, flav);
+        }
+    }
 
-            /* File attach message, subject is file name */
-            if (msg->attr & MSG_FILE) {
-                for (p = xstrtok(subj, " \t"); p; p = xstrtok(NULL, " \t")) {
-                    /* Attach */
-                    if (bink_attach(&nn, 0, p, flav, FALSE) != OK)
-                        return EX_CANTCREAT;
-                }
-                /* New subject is base name of file attach */
-                if ((p = strrchr(subj, '/')) || (p = strrchr(subj, '\\')))
-                    subj = p + 1;
-            }
-        } else {
-            if ((sf = pkt_open(o_flag, NULL, NULL, FALSE)) == NULL)
+    /* File attach message, subject is file name */
+    if (direct && (msg->attr & MSG_FILE)) {
+        char *p;
+
+        for (p = xstrtok(subj, " \t"); p; p = xstrtok(NULL, " \t")) {
+            /* Attach */
+            if (bink_attach(&nn, 0, p, flav, FALSE) != OK) {
+                tl_free(dec_body);
                 return EX_CANTCREAT;
+            }
         }
+        /* New subject is base name of file attach */
+        if ((p = strrchr(subj, '/')) || (p = strrchr(subj, '\\')))
+            subj = p + 1;
     }
 
     last_zone = cf_zone();
 
-    /* Decode and recode (charset) the body */
-    dec_body = mime_body_dec(&body, h, ci->ftn, ci->default_rfc);
-    if (dec_body == NULL)
-        return EX_DATAERR;
-
     /*
      * Compute number of split messages if any
      */
@@ -1425,7 +1442,7 @@ static int snd_mail_prepare(RFCHeader *h,
  */
 static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
 {
-    char groups[BUFSIZ];
+    char *groups;
     Node node_from, node_to;
     char *asc_node_to;
     RFCAddr rfc_from;
@@ -1495,14 +1512,20 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
             ret = EX_DATAERR;
             goto out;
         }
-        BUF_COPY(groups, p);
+        groups = s_copy(p);
         debug(3, "RFC Newsgroups: %s", groups);
 
         xpost_flag = strchr(groups, ',') != NULL;
 
         /* List of newsgroups -> textlist (strtok is not reentrant!) */
-        for (p = strtok(groups, ","); p; p = strtok(NULL, ","))
-            tl_append(&tl, p);
+        for (p = strtok(groups, ","); p; p = strtok(NULL, ",")) {
+            p = strip_space(p);
+            for (tp = tl.first; tp; tp = tp->next)
+                if (!strcmp(tp->line, p))
+                    break;
+            if (*p && !tp)
+                tl_append(&tl, p);
+        }
 
         for (tp = tl.first; tp; tp = tp->next) {
             p = tp->line;
@@ -1540,9 +1563,12 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                     pa->zone = ab->zone;
                     if (ab->addr.zone == INVALID && ab->addr.net == INVALID &&
                         ab->addr.node == INVALID && ab->addr.point == INVALID) {
-                        cf_set_best(ab->nodes.first->node.zone,
+                        if (ab->nodes.first)
+                            cf_set_best(ab->nodes.first->node.zone,
                                     ab->nodes.first->node.net,
                                     ab->nodes.first->node.node);
+                        else
+                            cf_set_zone(ab->zone);
                         pa->addr.zone = cf_addr()->zone;
                         pa->addr.net = cf_addr()->net;
                         pa->addr.node = cf_addr()->node;
@@ -1623,7 +1649,6 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
             } /* else if (!pa) */
         }
 
-        tl_clear(&tl);
         acl_ngrp_free();
     } else {
         /*
@@ -1763,6 +1788,7 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
 out:
     if (decoded != NULL)
         header_free(decoded);
+    tl_clear(&tl);
     TMPS_RETURN(ret);
     return 0;
 }
@@ -1772,7 +1798,7 @@ out:
  */
 int print_tear_line(FILE *fp, RFCHeader *h)
 {
-    char *p, *pt;
+    char *p;
 
     if (use_x_for_tearline) {
         if ((p = header_get(h, "X-FTN-Tearline")) ||
@@ -1781,11 +1807,8 @@ int print_tear_line(FILE *fp, RFCHeader *h)
             (p = header_get(h, "X-Newsreader")) ||
             (p = header_get(h, "X-GateSoftware")) ||
             (p = header_get(h, "X-HTTP-USER-AGENT"))) {
-            BUF_COPY(buffer, p);
-            /* TODO: no xlat when converted directly to FTN charset */
-            pt = xlat_s(buffer, NULL);
-            fprintf(fp, "--- %s\r", pt ? pt : buffer);
-            pt = xlat_s(NULL, pt);
+            /* headers are already in the FTN charset */
+            fprintf(fp, "--- %s\r", p);
             return ferror(fp);
         }
     }
-- 
2.43.0


From 13780f26902f362a1a6ff3b7b8f838f63ed67a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 36/86] fix: areas options without argument crashed

---
 src/common/areas.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/common/areas.c b/src/common/areas.c
index e207afa..5e32aae 100644
--- a/src/common/areas.c
+++ b/src/common/areas.c
@@ -134,7 +134,7 @@ long areas_get_limitmsgsize(void)
 Area *areas_parse_line(char *buf)
 {
     Area *p;
-    char *a, *g, *o;
+    char *a, *g, *o, *v;
 
     a = xstrtok(buf, " \t");    /* FTN area */
     g = xstrtok(NULL, " \t");   /* Newsgroup */
@@ -168,20 +168,20 @@ Area *areas_parse_line(char *buf)
     for (o = xstrtok(NULL, " \t"); o; o = xstrtok(NULL, " \t")) {
         if (!strcmp(o, "-a"))
             /* -a Z:N/F.P */
-            if ((o = xstrtok(NULL, " \t")))
-                asc_to_node(o, &p->addr, FALSE);
+            if ((v = xstrtok(NULL, " \t")))
+                asc_to_node(v, &p->addr, FALSE);
         if (!strcmp(o, "-z"))
             /* -z ZONE */
-            if ((o = xstrtok(NULL, " \t")))
-                p->zone = atoi(o);
+            if ((v = xstrtok(NULL, " \t")))
+                p->zone = atoi(v);
         if (!strcmp(o, "-o"))
             /* -o ORIGIN */
-            if ((o = xstrtok(NULL, " \t")))
-                p->origin = strsave(o);
+            if ((v = xstrtok(NULL, " \t")))
+                p->origin = strsave(v);
         if (!strcmp(o, "-d"))
             /* -d DISTRIBUTION */
-            if ((o = xstrtok(NULL, " \t")))
-                p->distribution = strsave(o);
+            if ((v = xstrtok(NULL, " \t")))
+                p->distribution = strsave(v);
         if (!strcmp(o, "-l"))
             p->flags |= AREA_LOCALXPOST;
         if (!strcmp(o, "-x"))
@@ -194,20 +194,20 @@ Area *areas_parse_line(char *buf)
             p->flags |= AREA_NO;
         if (!strcmp(o, "-R"))
             /* -R lvl */
-            if ((o = xstrtok(NULL, " \t")))
-                p->rfc_lvl = atoi(o);
+            if ((v = xstrtok(NULL, " \t")))
+                p->rfc_lvl = atoi(v);
         if (!strcmp(o, "-m"))
             /* -m MAXMSGSIZE */
-            if ((o = xstrtok(NULL, " \t")))
-                p->maxsize = atol(o);
+            if ((v = xstrtok(NULL, " \t")))
+                p->maxsize = atol(v);
         if (!strcmp(o, "-L"))
             /* -L LIMITMSGSIZE */
-            if ((o = xstrtok(NULL, " \t")))
-                p->limitsize = atol(o);
+            if ((v = xstrtok(NULL, " \t")))
+                p->limitsize = atol(v);
         if (!strcmp(o, "-X"))
             /* -X "Xtra: xyz" */
-            if ((o = xstrtok(NULL, " \t")))
-                tl_append(&p->x_hdr, o);
+            if ((v = xstrtok(NULL, " \t")))
+                tl_append(&p->x_hdr, v);
         if (!strcmp(o, "-8"))
             p->encoding = MIME_8BIT;
 
@@ -219,8 +219,8 @@ Area *areas_parse_line(char *buf)
 
         if (!strcmp(o, "-C"))
             /* -C DEF:IN:OUT */
-            if ((o = xstrtok(NULL, " \t")))
-                p->charset = strsave(o);
+            if ((v = xstrtok(NULL, " \t")))
+                p->charset = strsave(v);
 
         if (!strcmp(o, "-nh"))
             p->flags |= AREA_HEADERS_PLAIN;
-- 
2.43.0


From 74e190418a078eebaf428701c93a18cc2f03c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 37/86] fix: RFC-X kludges were written with line feeds

---
 src/common/rfcheader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index 116c55e..e6c3003 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -65,7 +65,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
                 }
             }
             if (ok)
-                fprintf(out, "\001RFC-%s\r\n", p->line);
+                fprintf(out, "\001RFC-%s\r", p->line);
         }
     }
 
@@ -83,7 +83,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
                 for (i = 0; is_space(p->line[i]); i++) ;
                 fprintf(out, " %s", &(p->line[i]));
             }
-            crlf = "\r\n";
+            crlf = "\r";
         }
         fprintf(out, "%s", crlf);
     }
@@ -119,7 +119,7 @@ void header_ca_rfc(RFCHeader *header, FILE * out, int rfc_level)
                 }
             }
             if (ok)
-                crlf = "\r\n";
+                crlf = "\r";
         }
         fprintf(out, "%s", crlf);
     }
-- 
2.43.0


From bcc006d3c5212f9ad71d541b3776a1958f9e574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:44 +0000
Subject: [PATCH 38/86] fix: characters on the edges of 32K pieces of long
 lines were lost

---
 src/common/mime.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 2068b7f..8752007 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1526,6 +1526,41 @@ static void mime_debody_append_lines(Textlist *body, char *str)
     }
 }
 
+/*
+ * Copy the body. Parts of a too long for reading line are put together,
+ * otherwise characters on their edges cannot be recoded
+ */
+static Textlist *mime_debody_plain(Textlist *body)
+{
+    Textlist *dec_body;
+    Textline *line, *last, *next;
+    char *buf;
+    size_t len;
+
+    dec_body = xmalloc(sizeof(*dec_body));
+    tl_init(dec_body);
+
+    for (line = body->first; line != NULL; line = next) {
+        len = 0;
+        next = line;
+        do {
+            last = next;
+            len += strlen(last->line);
+            next = last->next;
+        } while (next != NULL && strchr(last->line, '\n') == NULL);
+
+        buf = xmalloc(len + 1);
+        for (len = 0; line != next; line = line->next) {
+            strcpy(buf + len, line->line);
+            len += strlen(line->line);
+        }
+        tl_append(dec_body, buf);
+        xfree(buf);
+    }
+
+    return dec_body;
+}
+
 /*
  * Decode quoted-printable line of a body (rfc 2045), invalid sequences
  * are left as is. Returns true if the line continues in the next one
@@ -1777,7 +1812,7 @@ static Textlist *mime_debody_section(Textlist *body, RFCHeader *header,
             || strieq(mime->encoding, "7bit")
             || strieq(mime->encoding, "binary")) {
 
-            dec_body = tl_dup(body);
+            dec_body = mime_debody_plain(body);
 
         } else if (strieq(mime->encoding, "base64")) {
             dec_body = mime_debody_base64(body);
-- 
2.43.0


From 313320a0e0f4ef8291420c83b78739579394d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:18 +0000
Subject: [PATCH 39/86] fix: rfc2ftn: area address lost on opening a packet,
 addresses depended on previous article, malformed Message-ID left message
 without MSGID

---
 src/gate/rfc2ftn.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index af105ef..7d86320 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1011,11 +1011,16 @@ static int snd_message(Message * msg, Area * parea,
         nmsg = 0;
     }
     if (!pkt_isopen()) {
+        Node addr = cf_n_addr();
+
         if (direct)
             sf = pkt_open(o_flag, &nn, flav, TRUE);
         else
             sf = pkt_open(o_flag, NULL, NULL, FALSE);
 
+        /* opening selects the address for the packet's destination */
+        cf_set_curr(&addr);
+
         if (sf == NULL) {
             tl_free(dec_body);
             return EX_CANTCREAT;
@@ -1097,6 +1102,7 @@ static int snd_message(Message * msg, Area * parea,
     /***** ^A kludges *******************************************************/
 
     /* Add kludges for MSGID / REPLY */
+    id = NULL;
     if ((header = s_header_getcomplete(h, "Message-ID"))) {
         id = s_msgid_rfc_to_fido(&flag, header, part,
                                  msg->area,
@@ -1116,7 +1122,9 @@ static int snd_message(Message * msg, Area * parea,
                     fprintf(sf, "\001MSGID: %s %s\r", znf1(node_from), id);
             }
         }
-    } else
+    }
+    /* None or malformed */
+    if (!id)
         print_local_msgid(sf, node_from);
 
     if ((header = s_header_getcomplete(h, "References")) ||
@@ -1398,6 +1406,9 @@ static int snd_mail_prepare(RFCHeader *h,
     int rc;
     char *p;
 
+    /* Do not depend on the previous message or area */
+    cf_set_zone(cf_defzone());
+
     /*
      * Subject
      */
@@ -1585,6 +1596,8 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                     cf_set_curr(&pa->addr);
                 else
                     cf_set_zone(pa->zone);
+                if (!alias_found)
+                    node_from = cf_n_addr();
 
                 /* Various checks */
                 if (check_areas_bbs && check_downlinks(pa->area) <= 0) {
-- 
2.43.0


From da9f99cef6d1a4248df78e4f34ee259bfe04a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 40/86] fix: rfc2ftn: recipients lost or split in To/Cc/Bcc
 headers, empty recipients sent to All, ACL of previous sender

---
 src/common/acl.c         |  2 ++
 src/common/rfcheader.c   | 45 ++++++++++++++++++++++++++---
 src/gate/rfc2ftn.c       | 62 ++++++++++++++++++----------------------
 src/include/prototypes.h |  1 +
 4 files changed, 72 insertions(+), 38 deletions(-)

diff --git a/src/common/acl.c b/src/common/acl.c
index 27c3d63..cee65ba 100644
--- a/src/common/acl.c
+++ b/src/common/acl.c
@@ -138,6 +138,8 @@ void acl_ngrp(RFCAddr rfc_from, int type)
 
     char email[MAXINETADDR];
 
+    /* don't keep the list of the previous sender */
+    acl_ngrp_free();
     BUF_COPY(email, s_rfcaddr_to_asc(&rfc_from, FALSE));
     list_init(&ngrp_pat_list, acl_lookup(email, type));
     return;
diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index e6c3003..4fe0b67 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -474,7 +474,7 @@ char *addr_token(char *line)
     static char *save_line = NULL;
     static char *save_p = NULL;
     int level;
-    char *s, *p;
+    char *s, *p, *q;
 
     if (line) {
         /*
@@ -493,11 +493,20 @@ char *addr_token(char *line)
 
     level = 0;
     for (p = s = save_p; *p; p++) {
-        if (*p == '(')
+        if (*p == '\\' && p[1])
+            p++;
+        else if (*p == '"' && level <= 0) {
+            /* skip quoted string, if it's closed */
+            for (q = p + 1; *q && *q != '"'; q++)
+                if (*q == '\\' && q[1])
+                    q++;
+            if (*q)
+                p = q;
+        } else if (*p == '(')
             level++;
-        if (*p == ')')
+        else if (*p == ')')
             level--;
-        if (*p == ',' && level <= 0)
+        else if (*p == ',' && level <= 0)
             break;
     }
     if (*p)
@@ -532,3 +541,31 @@ RFCHeader *header_decode(RFCHeader *header, char *to, char *ch_fallback)
 
     return decoded;
 }
+
+/*
+ * Collect the addresses from all the header lines @name to the list @out.
+ * The header is the original one, since the decoded text may contain any
+ * special characters, the found addresses are decoded as header_decode() does.
+ */
+void header_addresses(RFCHeader *header, char *name, Textlist *out,
+                      char *to, char *ch_fallback)
+{
+    Textline *line;
+    size_t len = strlen(name);
+    char *p;
+
+    for (line = header->headers.first; line; line = line->next) {
+        if (strnicmp(line->line, name, len) || line->line[len] != ':')
+            continue;
+
+        for (p = addr_token(line->line + len + 1); p; p = addr_token(NULL)) {
+            while (is_space(*p))
+                p++;
+            if (*p == '\0')
+                continue;
+            mime_header_dec(buffer, sizeof(buffer), p, to, ch_fallback, header);
+            header_strip_ctrl(buffer);
+            tl_append(out, buffer);
+        }
+    }
+}
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 7d86320..f3f2d12 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1668,6 +1668,13 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
          * NetMail message
          */
 
+        if (!rfc_to.user[0]) {
+            fglog("ERROR: recipient without user name");
+            sendback("Address %s:\n  no user name", s_rfcaddr_to_asc(&rfc_to, TRUE));
+            ret = EX_NOUSER;
+            goto out;
+        }
+
         /* it's done in main, but it's not passed */
         determine_charsets(h, NULL, ci);
 
@@ -1972,43 +1979,27 @@ int print_via(FILE * fp, Node * node_from)
 }
 
 /*
- * Send mail to addresses taken from To, Cc, Bcc headers
+ * Send mail to addresses taken from To, Cc, Bcc headers of the original
+ * (not decoded) message header
  */
-static int snd_to_cc_bcc(long int size, RFCHeader *h)
+static int snd_to_cc_bcc(long int size, RFCHeader *orig, RFCHeader *h,
+                         struct charset_info *ci)
 {
-    char *header, *p;
+    static char *names[] = { "To", "Cc", "Bcc" };
+    Textlist list;
+    Textline *line;
     int status = EX_OK, st;
-    RFCAddr rfc_to;
+    size_t i;
 
-    /*
-     * To:
-     */
-    for (header = header_get(h, "To"); header; header = header_getnext(h))
-        for (p = addr_token(header); p; p = addr_token(NULL)) {
-            rfc_to = rfcaddr_from_rfc(p);
-            if ((st = snd_mail(rfc_to, size, h)) != EX_OK)
-                status = st;
-        }
+    tl_init(&list);
+    for (i = 0; i < sizeof(names) / sizeof(names[0]); i++)
+        header_addresses(orig, names[i], &list, ci->ftn, ci->default_rfc);
 
-    /*
-     * Cc:
-     */
-    for (header = header_get(h, "Cc"); header; header = header_getnext(h))
-        for (p = addr_token(header); p; p = addr_token(NULL)) {
-            rfc_to = rfcaddr_from_rfc(p);
-            if ((st = snd_mail(rfc_to, size, h)) != EX_OK)
-                status = st;
-        }
-
-    /*
-     * Bcc:
-     */
-    for (header = header_get(h, "Bcc"); header; header = header_getnext(h))
-        for (p = addr_token(header); p; p = addr_token(NULL)) {
-            rfc_to = rfcaddr_from_rfc(p);
-            if ((st = snd_mail(rfc_to, size, h)) != EX_OK)
-                status = st;
-        }
+    for (line = list.first; line; line = line->next) {
+        if ((st = snd_mail(rfcaddr_from_rfc(line->line), size, h)) != EX_OK)
+            status = st;
+    }
+    tl_clear(&list);
 
     return status;
 }
@@ -2482,14 +2473,16 @@ int main(int argc, char **argv)
             tmps_freeall();
         } else {
             struct charset_info _ci, *ci = &_ci;
+            RFCHeader *orig_header;
 
             /* since snd_to_cc_bcc needs recoded header, do it here */
             determine_charsets(header, NULL, ci);
-            header = header_decode(header, ci->ftn, ci->default_rfc);
+            orig_header = header;
+            header = header_decode(orig_header, ci->ftn, ci->default_rfc);
 
             if (t_flag || optind >= argc) {  /* flag or no arguments */
                 /* Send mail to addresses from headers */
-                status = snd_to_cc_bcc(size, header);
+                status = snd_to_cc_bcc(size, orig_header, header, ci);
                 tmps_freeall();
             } else {
                 /* Send mail to addresses from command line args */
@@ -2500,6 +2493,7 @@ int main(int argc, char **argv)
                     tmps_freeall();
                 }
             }
+            header_free(orig_header);
         }
 
         header_free(header);
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 141074d..bb75905 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -587,6 +587,7 @@ char *header_getnext(RFCHeader *);
 char *s_header_getcomplete(RFCHeader *, char *);
 char *addr_token(char *);
 RFCHeader *header_decode(RFCHeader *, char *, char *);
+void header_addresses(RFCHeader *, char *, Textlist *, char *, char *);
 
 /* routing.c */
 extern Routing *routing_first;
-- 
2.43.0


From 27609e979380c96b8b2d44fbf472ef330bff1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 41/86] fix: out-of-bounds reads in wildmatch(), passwd lines
 with illegal address

---
 src/common/passwd.c  |  7 ++++++-
 src/common/wildmat.c | 11 ++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/common/passwd.c b/src/common/passwd.c
index f7dba9c..d09d31c 100644
--- a/src/common/passwd.c
+++ b/src/common/passwd.c
@@ -69,7 +69,12 @@ static Passwd *passwd_parse_line(char *buf)
     p = (Passwd *) xmalloc(sizeof(Passwd));
 
     p->context = strsave(c);
-    asc_to_node(n, &p->node, FALSE);
+    if (asc_to_node(n, &p->node, FALSE) == ERROR) {
+        fglog("passwd: illegal FTN address %s", n);
+        xfree(p->context);
+        xfree(p);
+        return NULL;
+    }
     p->passwd = strsave(w);
     p->args = r ? strsave(r) : NULL;
     p->next = NULL;
diff --git a/src/common/wildmat.c b/src/common/wildmat.c
index 1994fe5..19bc75d 100644
--- a/src/common/wildmat.c
+++ b/src/common/wildmat.c
@@ -219,9 +219,10 @@ int wildmatch(char *s, char *p, int ic)
         switch (*p) {
         case '\\':
             /* Literal match with following character; fall through. */
-            p++;
+            if (p[1])
+                p++;
         default:
-            if (!char_eq(*s, *p, ic))
+            if (*s == '\0' || !char_eq(*s, *p, ic))
                 goto BackTrack;
             continue;
         case '?':
@@ -242,13 +243,17 @@ int wildmatch(char *s, char *p, int ic)
                 int matched;
                 int reverse;
 
+                if (*s == '\0')
+                    return FALSE;
                 /* [^....] means inverse character class. */
                 if ((reverse = (p[1] == '^')))
                     p++;
                 for (last = 0400, matched = FALSE; *++p && *p != ']'; last = *p)
-                    if (*p == '-' ? char_range(*s, last, *++p, ic)
+                    if (*p == '-' && p[1] ? char_range(*s, last, *++p, ic)
                         : char_eq(*s, *p, ic))
                         matched = TRUE;
+                if (*p == '\0')
+                    return FALSE;       /* not closed */
                 if (matched == reverse)
                     goto BackTrack;
                 continue;
-- 
2.43.0


From 08a6d41ca37c821264682504a0436025e88902f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 42/86] fix: areas.bbs lost options, quoting and comments on
 rewrite, was missing or truncated while written, crashed on options without
 argument

---
 src/common/areasbbs.c | 100 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 82 insertions(+), 18 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index ff0f176..3e61aa8 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -132,13 +132,15 @@ static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 
     ret = OK;
     for (; p; p = xstrtok(NULL, " \t\r\n")) {
-        if ('P' == *p) {
-            lon_add(lon_passive, &node);
+        int passive = ('P' == *p);
+
+        if (passive)
             p++;
-        }
         if (asc_to_node_diff(p, &node, &old) == OK) {
             old = node;
             lon_add(lon, &node);
+            if (passive)
+                lon_add(lon_passive, &node);
         } else {
             ret = ERROR;
             break;
@@ -219,31 +221,43 @@ static AreasBBS *areasbbs_parse_line(char *line)
     while (nl && *nl == '-') {
         if (streq(nl, "-a")) {  /* -a Z:N/F.P */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             asc_to_node(o2, &p->addr, FALSE);
         }
 
         if (streq(nl, "-z")) {  /* -z ZONE */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->zone = atoi(o2);
         }
 
         if (streq(nl, "-l")) {  /* -l LVL */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->lvl = atoi(o2);
         }
 
         if (streq(nl, "-k")) {  /* -k KEY */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->key = strsave(o2);
         }
 
         if (streq(nl, "-d")) {  /* -d DESC */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->desc = strsave(o2);
         }
 
         if (streq(nl, "-s")) {  /* -s STATE */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->state = strsave(o2);
         }
 
@@ -257,24 +271,34 @@ static AreasBBS *areasbbs_parse_line(char *line)
 
         if (streq(nl, "-p")) {  /* -p LIST */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             areasbbs_add_passive(&(p->passive), o2);
         }
 
         if (streq(nl, "-t")) {  /* -t TIME */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->time = atol(o2);
         }
 
         if (streq(nl, "-e")) {  /* -e DAYS */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->expire_n = atoi(o2);
         }
         if (streq(nl, "-n")) {  /* -n DAYS */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->expire_t = atoi(o2);
         }
         if (streq(nl, "-u")) {  /* -u NUM */
             o2 = xstrtok(NULL, " \t\r\n");
+            if (!o2)
+                break;
             p->uplinks = atoi(o2);
         }
         nl = xstrtok(NULL, " \t\r\n");
@@ -351,6 +375,29 @@ int areasbbs_init(char *name)
     return OK;
 }
 
+/*
+ * Output string, quoted if it's necessary to read it back
+ */
+static void areasbbs_print_str(FILE * fp, char *s, int force)
+{
+    if (!force && *s && !strpbrk(s, " \t\r\n\"")) {
+        fputs(s, fp);
+        return;
+    }
+
+    fputc('"', fp);
+    for (; *s; s++) {
+        if (*s == '"')
+            fputc('\\', fp);
+        /* an end of line would turn the rest into another entry */
+        fputc((*s == '\r' || *s == '\n') ? ' ' : *s, fp);
+        /* don't let it quote the closing one */
+        if (*s == '\\' && !s[1])
+            fputc(' ', fp);
+    }
+    fputc('"', fp);
+}
+
 /*
  * Output AREAS.BBS, format short sorted list of downlink
  */
@@ -358,20 +405,28 @@ int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
 
-    fprintf(fp, "%s\n", areasbbs_1stline);
+    fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
     for (p = areasbbs_list; p; p = p->next) {
         if (p->flags & AREASBBS_PASSTHRU)
             fprintf(fp, "#");
-        fprintf(fp, "%s %s ", p->dir, p->area);
+        areasbbs_print_str(fp, p->dir, FALSE);
+        fprintf(fp, " ");
+        areasbbs_print_str(fp, p->area, FALSE);
+        fprintf(fp, " ");
         if (p->zone != -1)
             fprintf(fp, "-z %d ", p->zone);
         if (p->addr.zone != -1)
             fprintf(fp, "-a %s ", znfp1(&p->addr));
         if (p->lvl != -1)
             fprintf(fp, "-l %d ", p->lvl);
-        if (p->key)
-            fprintf(fp, "-k %s ", p->key);
+        if (p->key) {
+            fprintf(fp, "-k ");
+            areasbbs_print_str(fp, p->key, FALSE);
+            fprintf(fp, " ");
+        }
+        if (p->flags & AREASBBS_READONLY)
+            fprintf(fp, "-r ");
         if (0 < p->passive.size) {
             fprintf(fp, "-p ");
             lon_print_passive(&(p->passive), fp);
@@ -382,17 +437,23 @@ int areasbbs_print(FILE * fp)
             fprintf(fp, "-e %d ", p->expire_n);
         if (p->expire_t)
             fprintf(fp, "-n %d ", p->expire_t);
-        if (p->desc)
-            fprintf(fp, "-d \"%s\" ", p->desc);
-        if (p->state)
-            fprintf(fp, "-s %s ", p->state);
+        if (p->desc) {
+            fprintf(fp, "-d ");
+            areasbbs_print_str(fp, p->desc, TRUE);
+            fprintf(fp, " ");
+        }
+        if (p->state) {
+            fprintf(fp, "-s ");
+            areasbbs_print_str(fp, p->state, FALSE);
+            fprintf(fp, " ");
+        }
         if (p->uplinks > 1)
             fprintf(fp, "-u %d ", p->uplinks);
         lon_print_sorted(&p->nodes, fp, p->uplinks);
         fprintf(fp, "\n");
     }
 
-    return ferror(fp);
+    return ferror(fp) ? ERROR : OK;
 }
 
 /*
@@ -473,11 +534,12 @@ int areasbbs_rewrite(void)
      * Rename AREAS.BBS -> AREAS.O01
      */
     BUF_COPY(old, buffer);
-    str_copy(old + ovwr, sizeof(old) - ovwr, "bbs");
     BUF_COPY(new, buffer);
     str_copy(new + ovwr, sizeof(new) - ovwr, "o01");
-    debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    debug(4, "Copying %s -> %s", old, new);
+    unlink(new);
+    if (link(old, new) == ERROR && errno != ENOENT)
+        fglog("$WARNING: can't keep old %s as %s", old, new);
 
     /*
      * Rename AREAS.NEW -> AREAS.BBS
@@ -485,9 +547,11 @@ int areasbbs_rewrite(void)
     BUF_COPY(old, buffer);
     str_copy(old + ovwr, sizeof(old) - ovwr, "new");
     BUF_COPY(new, buffer);
-    str_copy(new + ovwr, sizeof(new) - ovwr, "bbs");
     debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    if (rename(old, new) == ERROR) {
+        fglog("$ERROR: renaming %s -> %s", old, new);
+        return ERROR;
+    }
 
     fglog("%s changed", buffer);
 
@@ -577,7 +641,7 @@ int areasbbs_chstate(char **state, char *stold, char stnew)
 
     /* "old state" not given */
     if ((NULL == stold) || ('\0' == *stold)) {
-        BUF_COPY(p, p2);
+        str_copy(p, len, p2);
         j = len - 2;
     } else {
         for (i = 0, j = 0; '\0' != p2[i]; ++i)
-- 
2.43.0


From 2569a5942a874f1189a25e4a3b886af66358b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 43/86] fix: ftnafutil failed on success and crashed on areas
 without nodes

---
 src/areafix/ftnafutil.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 55096f8..60da890 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -218,9 +218,9 @@ int do_areasbbs(int cmd)
                 (0 != p->time) &&
                 ((0 != request_tmout && request_tmout < tm) ||
                  (p->expire_t > 0 && p->expire_t < tm))) {
-                if (!(a = uplinks_line_get(areafix, uplink))) {
+                if (!uplink || !(a = uplinks_line_get(areafix, uplink))) {
                     fglog("no uplinks record found for %s area %s", p->area,
-                          znfp1(uplink));
+                          uplink ? znfp1(uplink) : "-");
                     break;
                 }
 
@@ -264,9 +264,9 @@ int do_areasbbs(int cmd)
                      ((0 != no_traffic_tmout && no_traffic_tmout < tm) ||
                       (p->expire_n > 0 && p->expire_n < tm))) {
 
-                if (!(a = uplinks_line_get(areafix, uplink))) {
+                if (!uplink || !(a = uplinks_line_get(areafix, uplink))) {
                     fglog("no uplinks record found for %s area %s", p->area,
-                          znfp1(uplink));
+                          uplink ? znfp1(uplink) : "-");
                     break;
                 }
                 fglog
@@ -289,9 +289,9 @@ int do_areasbbs(int cmd)
                 }
             } else if (areasbbs_isstate(state, 'S') && n < 1 &&
                        p->flags & AREASBBS_PASSTHRU) {
-                if (!(a = uplinks_line_get(areafix, uplink))) {
+                if (!uplink || !(a = uplinks_line_get(areafix, uplink))) {
                     fglog("no uplinks record found for %s area %s", p->area,
-                          znfp1(uplink));
+                          uplink ? znfp1(uplink) : "-");
                     break;
                 }
                 fglog
@@ -330,9 +330,9 @@ int do_areasbbs(int cmd)
             break;
 
         case DO_UNRESUBSCRIBE:
-            if (!(a = uplinks_line_get(areafix, uplink))) {
+            if (!uplink || !(a = uplinks_line_get(areafix, uplink))) {
                 fglog("no uplinks record found for %s area %s", p->area,
-                      znfp1(uplink));
+                      uplink ? znfp1(uplink) : "-");
                 break;
             }
 
@@ -594,7 +594,7 @@ int main(int argc, char **argv)
         send_request(&req);
 
     if (ret == 0 && !n_flag)
-        if (!areasbbs_rewrite())
+        if (areasbbs_rewrite() == ERROR)
             ret = EX_CANTCREAT;
 
     unlock_path(bbslock);
-- 
2.43.0


From 43286bf6f2ae3bf47c12dcaa50ae17445e38c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 44/86] fix: ftnafpkt took the point of the packet for netmail,
 -w and -s options; ftnaf crashed without Subject

---
 src/areafix/ftnaf.c    | 2 ++
 src/areafix/ftnafpkt.c | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 291207c..031d449 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -137,6 +137,8 @@ int do_mail(void)
 
     /* Run Areafix */
     subj = header_get(h, "Subject");
+    if (!subj)
+        subj = s_copy("");
     areafix_do(&xfrom.node, subj, &tl, (r_flag ? NULL : &out));
 
     /* Address may have been changed using the PASSWD command */
diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index bb59f4a..04e37ec 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -222,6 +222,9 @@ int do_packet(FILE * pkt_file, Packet * pkt)
 
         /* Retrieve address information from kludges for NetMail */
         if (body.area == NULL) {
+            /* Don't use point address from packet for Netmail */
+            msg.node_from.point = 0;
+            msg.node_to.point = 0;
             /* Retrieve complete address from kludges */
             kludge_pt_intl(&body, &msg, TRUE);
             msg.node_orig = msg.node_from;
@@ -405,7 +408,7 @@ int main(int argc, char **argv)
     cf_initialize();
 
     /* Parse options */
-    while ((c = getopt_long(argc, argv, "O:I:lrnb:Fvhc:a:w:u:s:",
+    while ((c = getopt_long(argc, argv, "O:I:lrnb:Fvhc:a:w:u:s",
                             long_options, &option_index)) != EOF)
         switch (c) {
     /***** program options *****/
@@ -456,6 +459,7 @@ int main(int argc, char **argv)
                 w_flag = atoi(optarg);
             else
                 w_flag = WAIT;
+            break;
         default:
             short_usage();
             return EX_USAGE;
-- 
2.43.0


From 04b05c699f6650a17a37b4680958d275c439e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 45/86] fix: areafix: unauthorised delete, password command for
 others, keys, limits, passive nodes, requests to uplinks

---
 src/areafix/areafix.c | 223 ++++++++++++++++++++++--------------------
 1 file changed, 119 insertions(+), 104 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 797922e..213afa9 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -322,7 +322,8 @@ int areafix_auth_check(Node * node, char *passwd, int checkpass)
     }
 
     /* Extract level, key, and real name from pwd->args */
-    s = strsave(pwd->args);
+    /* empty string resets xstrtok(), if there are no args */
+    s = strsave(pwd->args ? pwd->args : "");
     if ((p = xstrtok(s, " \t")))
         authorized_lvl = atoi(p);
     if ((p = xstrtok(NULL, " \t")))
@@ -962,15 +963,18 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
+            /* the string belongs to the config */
+            s1 = strsave(s1);
             for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
-                    lon_add(&(p->nodes), &node);
+                    if (!lon_search(&p->nodes, &node))
+                        lon_add(&(p->nodes), &node);
                 } else
                     fglog("config: AutoCreateSubscribeFileechoNodes: \
 			    invalid entry \"%s\"", s2);
+            xfree(s1);
         }
-        xfree(s1);
     } else {
         /*
          * Subscribe nodes if needed
@@ -982,16 +986,19 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
+            /* the string belongs to the config */
+            s1 = strsave(s1);
             for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
-                    lon_add(&(p->nodes), &node);
+                    if (!lon_search(&p->nodes, &node))
+                        lon_add(&(p->nodes), &node);
                     debug(5, "subscribe node %s", s2);
                 } else
                     fglog("config: AutoCreateSubscribeNodes: invalid entry \
 			\"%s\"", s2);
+            xfree(s1);
         }
-        xfree(s1);
     }
 #ifndef ACTIVE_LOOKUP
     if (cf_get_string("AutoCreateNG", TRUE)) {
@@ -1009,6 +1016,28 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     return OK;
 }
 
+/*
+ * Check if node is linked to the area, active or passive
+ */
+static int is_linked(AreasBBS * p, Node * node)
+{
+    return lon_search(&p->nodes, node) || lon_search(&p->passive, node);
+}
+
+/*
+ * Check if all the area's keys are among the keys of the authorized node
+ */
+static int key_allowed(AreasBBS * p)
+{
+    char *s;
+
+    for (s = p->key; s && *s; s++)
+        if (!strchr(authorized_key, *s))
+            return FALSE;
+
+    return TRUE;
+}
+
 /*
  * ListAll command
  */
@@ -1016,7 +1045,6 @@ int cmd_listall(Node * node)
 {
     AreasBBS *p;
     AreaUplink *a;
-    LON *l;
     int find;
     char *n, *f1, *f2;
     char *t;
@@ -1053,8 +1081,7 @@ int cmd_listall(Node * node)
 
         hi_write_avail(p->area, "");
 
-        l = &p->nodes;
-        if (lon_search(l, node))
+        if (is_linked(p, node))
             mark = (lon_search(&p->passive, node) ? "P" : "*");
         else
             mark = " ";
@@ -1189,9 +1216,7 @@ int cmd_list(Node * node, int flag) /* FALSE -> %avail; TRUE -> %list */
 #endif                          /* !AF_AVAIL */
 {
     AreasBBS *p;
-    LON *l;
     char *s, *mark;
-    int key_ok;
     int list_f = FALSE;
 #ifdef AFSEND_ECHO_STATUS
     char tmp[35];
@@ -1238,22 +1263,12 @@ int cmd_list(Node * node, int flag) /* FALSE -> %avail; TRUE -> %list */
 #endif
         for (p = areasbbs_first(); p; p = p->next) {
 
-            l = &p->nodes;
-
-            if (!lon_search(l, node)) {
+            if (!is_linked(p, node)) {
                 /* Check permissions */
                 if (p->lvl > authorized_lvl)
                     continue;
-                if (p->key) {
-                    key_ok = TRUE;
-                    for (s = p->key; *s; s++)
-                        if (!strchr(authorized_key, *s)) {
-                            key_ok = FALSE;
-                            break;
-                        }
-                    if (!key_ok)
-                        continue;
-                }
+                if (!key_allowed(p))
+                    continue;
 
                 /* Check zone */
                 if (p->zone != node->zone
@@ -1274,7 +1289,7 @@ int cmd_list(Node * node, int flag) /* FALSE -> %avail; TRUE -> %list */
                         continue;
             }
 #endif                          /* AF_AVAIL */
-            if (lon_search(l, node))
+            if (is_linked(p, node))
                 mark = ((lon_search(&p->passive, node)) ? "P" : "*");
             else
                 mark = " ";
@@ -1354,7 +1369,6 @@ int cmd_list(Node * node, int flag) /* FALSE -> %avail; TRUE -> %list */
 int cmd_query(Node * node)
 {
     AreasBBS *p;
-    LON *l;
 
     fglog("%s: query", znfp1(node));
 
@@ -1372,7 +1386,6 @@ int cmd_query(Node * node)
         char *mark_r, *mark_m;
 #endif                          /* FTN_ACL */
         char *mark_p;
-        l = &p->nodes;
 
 #ifdef FTN_ACL
         if ((cf_get_string("UplinkCanBeReadonly", TRUE) ||
@@ -1385,7 +1398,7 @@ int cmd_query(Node * node)
         mark_m = (ftnacl_ismandatory(node, p->area, my_type) ? "M" : " ");
 #endif                          /* FTN_ACL */
         mark_p = (lon_search(&p->passive, node) ? "P" : " ");
-        if (lon_search(l, node))
+        if (is_linked(p, node))
 #ifndef FTN_ACL
             areafix_printf("%s %s", mark_p, p->area);
 #else
@@ -1410,9 +1423,6 @@ int cmd_query(Node * node)
 int cmd_unlinked(Node * node)
 {
     AreasBBS *p;
-    LON *l;
-    char *s;
-    int key_ok;
 
     fglog("%s: unlinked", znfp1(node));
 
@@ -1431,21 +1441,11 @@ int cmd_unlinked(Node * node)
         char *mark_r, *mark_m;
 #endif                          /* FTN_ACL */
 
-        l = &p->nodes;
-
         /* Check permissions */
         if (p->lvl > authorized_lvl)
             continue;
-        if (p->key) {
-            key_ok = TRUE;
-            for (s = p->key; *s; s++)
-                if (!strchr(authorized_key, *s)) {
-                    key_ok = FALSE;
-                    break;
-                }
-            if (!key_ok)
-                continue;
-        }
+        if (!key_allowed(p))
+            continue;
 
         /* Check zone */
         if (areafix && p->zone != node->zone)
@@ -1462,7 +1462,7 @@ int cmd_unlinked(Node * node)
         mark_m = (ftnacl_ismandatory(node, p->area, my_type) ? "M" : " ");
 #endif                          /* FTN_ACL */
 
-        if (!lon_search(l, node))
+        if (!is_linked(p, node))
 #ifndef FTN_ACL
             areafix_printf("  %s", p->area);
 #else
@@ -1526,14 +1526,13 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
     BUF_COPY(area, area_in);
 
 #ifdef SUB_LIMIT
-    if (lim_g < 1)
-        for (p = areasbbs_first(); p; p = p->next) {
-            l = &p->nodes;
+    lim_g = 0;
+    for (p = areasbbs_first(); p; p = p->next) {
+        l = &p->nodes;
 
-            if (l && l->size > 1 && (lon_search(l, node) ||
-                                     lon_search(&p->passive, node)))
-                lim_g++;
-        }
+        if (is_linked(p, node) && (l->size > 1 || !lon_search(l, node)))
+            lim_g++;
+    }
 #endif                          /* SUB_LIMIT */
     iswc = is_wildcard(area);
 
@@ -1558,25 +1557,19 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
                     continue;
                 }
-                if (p->key) {
-                    if (!strpbrk(p->key, authorized_key)) {
-                        areafix_printf("%-41s: access denied (key)", p->area);
-                        if (upl == NULL)
-                            return DELETE;
-                        continue;
-                    }
+                if (!key_allowed(p)) {
+                    areafix_printf("%-41s: access denied (key)", p->area);
+                    if (upl == NULL)
+                        return DELETE;
+                    continue;
                 }
 
+                if (lon_search(&p->passive, node)) {
+                    cmd_active(node, p->area, upl);
+                    continue;
+                }
                 if (lon_search(l, node)) {
-                    if (lon_search(&p->passive, node)) {
-                        lon_remove(&p->passive, node);
-                        areasbbs_changed();
-                        areafix_printf("%-41s: set active", p->area);
-#ifdef SUB_LIMIT
-                        lim_g++;
-#endif                          /* SUB_LIMIT */
-                    } else
-                        areafix_printf("%-41s: already active", p->area);
+                    areafix_printf("%-41s: already active", p->area);
                     continue;
                 }
 
@@ -1593,9 +1586,9 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                     for (lim_a = 0, n = areasbbs_first(); n; n = n->next) {
                         ln = &n->nodes;
 
-                        if (ln && ln->size > 1 && l->first &&
-                            (lon_search(ln, node)
-                             || lon_search(&p->passive, node))
+                        if (ln->size > 0 && l->first &&
+                            is_linked(n, node)
+                            && (ln->size > 1 || !lon_search(ln, node))
                             && lon_search(ln, &l->first->node))
                             lim_a++;
                     }
@@ -1624,6 +1617,8 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                     if ((p->zone > 6) || (node->zone > 6)) {
                         areafix_printf("%-41s: different zone (Z%d), not added",
                                        p->area, p->zone);
+                        if (upl == NULL)
+                            return DELETE;
                         continue;
                     }
                 }
@@ -1824,7 +1819,7 @@ int cmd_unsub(Node * node, char *area, Textlist * upl)
                 areasbbs_changed();
                 continue;
             }
-            if (!lon_search(l, node)) {
+            if (!is_linked(p, node)) {
                 if (!areafix || p->zone == node->zone)
                     if (!iswild)
                         areafix_printf("%-41s: not subscribed", p->area);
@@ -1904,7 +1899,7 @@ int cmd_help(Node * node)
         if ((fp = fopen_expand_name(helpfile, R_MODE, FALSE))) {
             while (fgets(buffer, sizeof(buffer), fp)) {
                 strip_crlf(buffer);
-                areafix_printf(buffer);
+                areafix_printf("%s", buffer);
             }
             fclose(fp);
             return OK;
@@ -1942,8 +1937,6 @@ int cmd_passwd(Node * node, char *arg)
         areafix_printf("Command PASSWORD: illegal address %s.", p);
         return OK;
     }
-    *node = n;
-    cf_set_zone(node->zone);
 
     p = strtok(NULL, " \t");    /* Password */
     if (!p) {
@@ -1952,10 +1945,17 @@ int cmd_passwd(Node * node, char *arg)
         return OK;
     }
 
-    areafix_auth_check(node, p, TRUE);
-    if (!authorized)
+    areafix_auth_check(&n, p, TRUE);
+    if (!authorized) {
         areafix_printf("Command PASSWORD: authorization for %s failed.",
-                       znfp1(node));
+                       znfp1(&n));
+        /* the answer must not go to somebody else */
+        areafix_auth_init();
+        authorized_node = *node;
+        return OK;
+    }
+    *node = n;
+    cf_set_zone(node->zone);
 
     return OK;
 }
@@ -1972,7 +1972,7 @@ int cmd_delete(Node * node, char *area)
     Area *autocreate_area;
 #endif                          /* ACTIVE_LOOKUP */
 
-    if (!authorized_delete) {
+    if (!authorized || !authorized_delete) {
         areafix_printf("Command DELETE: not authorized.");
         return OK;
     }
@@ -2039,19 +2039,19 @@ int cmd_passive(Node * node, char *area, Textlist * upl)
                     if (l->size <= 2) {
                         n = l->first;
                         a = uplinks_line_get(areafix, &n->node);
-                        if (!a) {
+                        if (!a)
                             fglog("WARNING: can't find uplink for %s area",
                                   p->area);
-                            return OK;
-                        }
-                        tl_appendf(upl, "%s,%s,%s,%s,-%s",
-                                   znfp1(&a->uplink),
-                                   a->robotname,
-                                   fix_name ? fix_name : areafix_name(),
-                                   a->password, str_upper(p->area));
+                        else
+                            tl_appendf(upl, "%s,%s,%s,%s,-%s",
+                                       znfp1(&a->uplink),
+                                       a->robotname,
+                                       fix_name ? fix_name : areafix_name(),
+                                       a->password, str_upper(p->area));
 
-                        p->time = time(NULL);
-                        if ((NULL != p->state) &&
+                        if (a)
+                            p->time = time(NULL);
+                        if (a && (NULL != p->state) &&
                             (areasbbs_isstate(p->state, 'W') ||
                              areasbbs_isstate(p->state, 'F') ||
                              areasbbs_isstate(p->state, 'S'))) {
@@ -2096,23 +2096,26 @@ int cmd_active(Node * node, char *area, Textlist * upl)
             continue;
 
         if (lon_search(&p->passive, node)) {
-            if (!lon_search(l, node)) {
+            if (lon_search(l, node)) {
+                lon_remove(&p->passive, node);
+                areasbbs_changed();
+                areafix_printf("%-41s: set active", p->area);
+            } else {
                 n = l->first;
                 if (l->size == 1 && !node_eq(&n->node, node)) {
                     a = uplinks_line_get(areafix, &n->node);
-                    if (!a) {
+                    if (!a)
                         fglog("WARNING: can't find uplink for %s area",
                               p->area);
-                        return OK;
-                    }
-                    tl_appendf(upl, "%s,%s,%s,%s,+%s",
-                               znfp1(&a->uplink),
-                               a->robotname,
-                               fix_name ? fix_name : areafix_name(),
-                               a->password, str_upper(p->area));
-                    if (areasbbs_isstate(p->state, 'P') ||
-                        areasbbs_isstate(p->state, 'U')) {
-                        areasbbs_chstate(&(p->state), "P", 'W');
+                    else
+                        tl_appendf(upl, "%s,%s,%s,%s,+%s",
+                                   znfp1(&a->uplink),
+                                   a->robotname,
+                                   fix_name ? fix_name : areafix_name(),
+                                   a->password, str_upper(p->area));
+                    if (a && (areasbbs_isstate(p->state, 'P') ||
+                        areasbbs_isstate(p->state, 'U'))) {
+                        areasbbs_chstate(&(p->state), "UP", 'W');
                     }
                 }
                 lon_remove(&p->passive, node);
@@ -2136,6 +2139,17 @@ void areafix_set_changed(void)
     areasbbs_changed();
 }
 
+static int tl_has(Textlist * list, char *s)
+{
+    Textline *tl;
+
+    for (tl = list->first; tl; tl = tl->next)
+        if (!strcmp(tl->line, s))
+            return TRUE;
+
+    return FALSE;
+}
+
 /*
  * Sending subscribe/unsubscribe requests to uplinks
  */
@@ -2144,7 +2158,7 @@ void send_request(Textlist * upl)
 
     Textline *tl;
     Textlist out, send;
-    char links[BUFSIZ];
+    Textlist links;
     char *link = NULL, *l, *s;
     Node tmp;
     Message msg = { 0 };
@@ -2153,7 +2167,7 @@ void send_request(Textlist * upl)
     tl_init(&send);
 
     pkt_outdir(cf_p_outpkt(), NULL);
-    BUF_COPY(links, "");
+    tl_init(&links);
 
     while (1) {
         for (tl = upl->first; NULL != tl; tl = tl->next) {
@@ -2162,9 +2176,9 @@ void send_request(Textlist * upl)
 
             if (l) {
                 if (s) {
-                    if (!link && !strstr(links, l)) {
+                    if (!link && !tl_has(&links, l)) {
                         link = strsave(l);
-                        BUF_APPEND2(links, link, ",");
+                        tl_append(&links, link);
                     }
                     if (link && strcmp(l, link) == 0) {
                         fglog("request %s", tl->line);
@@ -2209,6 +2223,7 @@ void send_request(Textlist * upl)
         tl_clear(&send);
         tl_clear(&out);
     }
+    tl_clear(&links);
 }
 
 /*
@@ -2282,7 +2297,7 @@ short int send_rules(Node * link, char *area)
     msg.node_to = *link;
     BUF_COPY(msg.name_to, "SysOp");
     BUF_COPY(msg.name_from, "Fidogate Daemon");
-    sprintf(msg.subject, "%s Rules", area);
+    snprintf(msg.subject, sizeof(msg.subject), "%s Rules", area);
     cf_set_best(link->zone, link->net, link->node);
     msg.node_from = cf_n_addr();
 
-- 
2.43.0


From e5f4135eac6fc5e0135d84577e08e594976b3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 46/86] fix: area and file names from outside were passed to
 the shell, filefix created directories anywhere

---
 src/areafix/areafix.c    | 23 +++++++++++++++++++----
 src/common/misc.c        | 38 ++++++++++++++++++++++++++++++++++++++
 src/gate/ftn2rfc.c       |  6 +++---
 src/include/prototypes.h |  2 ++
 src/tick/ftntick.c       |  8 +++++++-
 src/toss/ftntoss.c       |  4 ++--
 src/toss/ngoper.c        |  6 ++++++
 7 files changed, 77 insertions(+), 10 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 213afa9..486cff7 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -756,6 +756,12 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             }
     }
 
+    /* the name becomes a directory */
+    if (!areafix && (strchr(name, '/') || name[0] == '.')) {
+        areafix_printf("%-41s: illegal name, can't create.", name);
+        return -2;
+    }
+
     if (!authorized_cmdline) {
         if (areafix && areafix_check_forbidden_area(name)) {
             areafix_printf("%-41s: forbidden area, can't create.", name);
@@ -858,7 +864,7 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             if (autocreate_fecho_path == NULL) {
                 fglog
                     ("CONFIG: AutoCreateFechoPath not defined and filearea not passthru");
-                p->dir = strsave("-");
+                return ERROR;
             }
             snprintf(full_farea_dir, sizeof(full_farea_dir), "%s/%s",
 		     autocreate_fecho_path,
@@ -928,18 +934,27 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     areafix_printf("%-41s: created", p->area);
 
     if ((autocreate_script_cmd = cf_get_string("AutoCreateCmd", TRUE))) {
+        char area_arg[BUFSIZ], state_arg[BUFSIZ];
+        char key_arg[BUFSIZ], desc_arg[BUFSIZ];
+
+        shell_quote(area_arg, sizeof(area_arg), p->area);
+        shell_quote(state_arg, sizeof(state_arg), p->state);
+        if (p->key)
+            shell_quote(key_arg, sizeof(key_arg), p->key);
+        if (p->desc)
+            shell_quote(desc_arg, sizeof(desc_arg), p->desc);
 #ifndef FTN_ACL
         snprintf(buffer, sizeof(buffer), "%s %s %s %s %s %d %s %s %d %s %s",
 #else
         snprintf(buffer, sizeof(buffer), "%s %s %s %s %s %d %s %s %d %s",
 #endif                          /* !FTN_ACL */
                 autocreate_script_cmd,
-                p->area,
+                area_arg,
                 znfp1(node),
-                p->state,
+                state_arg,
                 znfp1(&p->addr),
                 p->lvl,
-                p->key ? p->key : "NONE", p->desc ? p->desc : "NONE", p->zone,
+                p->key ? key_arg : "NONE", p->desc ? desc_arg : "NONE", p->zone,
 #ifndef FTN_ACL
                 p->flags & AREASBBS_PASSTHRU ? "-#" : "-",
                 p->flags & AREASBBS_READONLY ? "-r" : "-");
diff --git a/src/common/misc.c b/src/common/misc.c
index 2be04d9..373c468 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -468,6 +468,44 @@ int run_system(char *s)
     return (system(cmd) >> 8) & 0xff;
 }
 
+/*
+ * Check if string coming from outside can be used as is in a shell command
+ */
+int shell_safe(char *s)
+{
+    static char safe[] = "abcdefghijklmnopqrstuvwxyz"
+        "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,_+-=:@/";
+
+    return *s && *s != '-' && s[strspn(s, safe)] == 0;
+}
+
+/*
+ * Quote string as an argument of a shell command
+ */
+char *shell_quote(char *d, size_t n, char *s)
+{
+    size_t i = 0;
+
+    if (shell_safe(s)) {
+        snprintf(d, n, "%s", s);
+        return d;
+    }
+
+    /* leave room for a quoted quote, the final quote and 0 */
+    d[i++] = '\'';
+    for (; *s && i + 6 < n; s++) {
+        if (*s == '\'') {
+            memcpy(d + i, "'\\''", 4);
+            i += 4;
+        } else
+            d[i++] = *s;
+    }
+    d[i++] = '\'';
+    d[i] = 0;
+
+    return d;
+}
+
 int xfeof(FILE * fp)
 {
     int c;
diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 77a9bab..072ad9e 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -247,9 +247,9 @@ Area *news_msg(char *line, Node * to)
             } else {
                 if (cf_get_string("AutoCreateNG", TRUE)) {
                     fglog("create newsgroup %s", pa->group);
-                    BUF_COPY2(buffer, "%N/ngoper create ", pa->group);
-                    sprintf(exec_line, "%s/ngoper create %s", cf_p_bindir(),
-                            pa->group);
+                    shell_quote(buffer, sizeof(buffer), pa->group);
+                    snprintf(exec_line, sizeof(exec_line),
+                             "%s/ngoper create %s", cf_p_bindir(), buffer);
                     debug(8, "run: %s", exec_line);
                     if (0 != run_system(exec_line))
                         fglog("can't create newsgroup (rc != 0)");
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index bb75905..653a477 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -439,6 +439,8 @@ char *str_dosify(char *);
 #define DOSIFY_IF_NEEDED(s)
 #endif
 int run_system(char *);
+int shell_safe(char *);
+char *shell_quote(char *, size_t, char *);
 
 int xfeof(FILE *);
 
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index f40f7d7..d516c53 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -634,7 +634,13 @@ int process_tic(Tick * tic)
                 wild_file = xstrtok(NULL, " \t");
                 tick_action = xstrtok(NULL, "\n");
                 if (wildmatch(tic->file, wild_file, TRUE)) {
-                    sprintf(buffer, tick_action, new_name);
+                    if (!shell_safe(tic->file)) {
+                        fglog("ERROR: no action for unsafe file name %s",
+                              tic->file);
+                        xfree(str_save);
+                        break;
+                    }
+                    str_printf(buffer, sizeof(buffer), tick_action, new_name);
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
                     if (ret)
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index fd92cec..d650c02 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -860,8 +860,8 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
 
             if (NULL !=
                 (autocreate_area = areas_lookup(areaname, NULL, &pkt->to))) {
-                BUF_COPY2(autocreate_ng_cmd, "%N/ngoper create ",
-                          autocreate_area->group);
+                shell_quote(buffer, sizeof(buffer), autocreate_area->group);
+                BUF_COPY2(autocreate_ng_cmd, "%N/ngoper create ", buffer);
                 ret = run_system(autocreate_ng_cmd);
                 if (0 != ret)
                     fglog("can't create newsgroup (rc != 0)");
diff --git a/src/toss/ngoper.c b/src/toss/ngoper.c
index 2ea3146..77753c0 100644
--- a/src/toss/ngoper.c
+++ b/src/toss/ngoper.c
@@ -83,6 +83,12 @@ int main(int argc, char **argv)
         return 1;
     }
 
+    if (!shell_safe(argv[optind + 1])) {
+        printf("Illegal newsgroup name\n");
+        exit_free();
+        return 1;
+    }
+
     /* AutoCreateNewgroupCmd */
     if (NULL != (p = cf_get_string("AutoCreateNewgroupCmd", TRUE))) {
         cmd_ng = p;
-- 
2.43.0


From 41fa2985b4d22bc20b4bf877afe9d5996cea89ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 47/86] fix: programs crashed recoding text without
 DefaultCharset

---
 src/common/charset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/charset.c b/src/common/charset.c
index c1abce6..a656e03 100644
--- a/src/common/charset.c
+++ b/src/common/charset.c
@@ -417,10 +417,10 @@ int charset_recode_buf(char **dst, size_t *dstlen,
     if (srclen == 0)
         return ERROR;
 
-    debug(6, "mime charset: recoding from %s to %s", from, to);
+    debug(6, "mime charset: recoding from %s to %s", from ? from : "-", to ? to : "-");
 
     rc = !OK;
-    if (!strieq(from, to))
+    if (from && to && !strieq(from, to))
         rc = charset_recode_iconv(dst, dstlen, src, srclen, from, to);
 
     if (rc != OK) { /* both the same encoding or recoding failed */
-- 
2.43.0


From 93def376f93cca9c2262b1e0661c64213b8c0de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 48/86] fix: areafix changed the case of area names in
 areas.bbs

---
 src/areafix/areafix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 486cff7..d2f8379 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1669,7 +1669,7 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                                    znf1(&l->first->node),
                                    a->robotname,
                                    fix_name ? fix_name : areafix_name(),
-                                   a->password, str_upper(p->area));
+                                   a->password, str_upper(s_copy(p->area)));
 
                         areasbbs_chstate(&p->state, "UP", 'W');
                         p->time = time(NULL);
@@ -1867,7 +1867,7 @@ int cmd_unsub(Node * node, char *area, Textlist * upl)
                                        znfp1(&a->uplink),
                                        a->robotname,
                                        fix_name ? fix_name : areafix_name(),
-                                       a->password, str_upper(p->area));
+                                       a->password, str_upper(s_copy(p->area)));
                             continue;
                         } else {
                             fglog
@@ -2062,7 +2062,7 @@ int cmd_passive(Node * node, char *area, Textlist * upl)
                                        znfp1(&a->uplink),
                                        a->robotname,
                                        fix_name ? fix_name : areafix_name(),
-                                       a->password, str_upper(p->area));
+                                       a->password, str_upper(s_copy(p->area)));
 
                         if (a)
                             p->time = time(NULL);
@@ -2127,7 +2127,7 @@ int cmd_active(Node * node, char *area, Textlist * upl)
                                    znfp1(&a->uplink),
                                    a->robotname,
                                    fix_name ? fix_name : areafix_name(),
-                                   a->password, str_upper(p->area));
+                                   a->password, str_upper(s_copy(p->area)));
                     if (a && (areasbbs_isstate(p->state, 'P') ||
                         areasbbs_isstate(p->state, 'U'))) {
                         areasbbs_chstate(&(p->state), "UP", 'W');
-- 
2.43.0


From 4ba01e386782543ba25e4a29ef140b69dfdc3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 49/86] fix: configure: CRC check of ftntick was disabled by
 default, against documentation

---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index af87b1f..b0ddb74 100644
--- a/configure.ac
+++ b/configure.ac
@@ -570,7 +570,7 @@ AC_ARG_ENABLE(tick-crc,
     esac],dnl
     enable_tick_crc=yes)
 
-if test $enable_tick_crc = yes; then
+if test $enable_tick_crc = no; then
     AC_DEFINE(FTNTICK_NOCRC,
               1,
 	      [Enable if no ftntick CRC control])
-- 
2.43.0


From 91426e1db9f4cb01239a342d4d6dbbaabf32a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 50/86] fix: directories with dangling links could not be read

---
 src/common/dir.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/dir.c b/src/common/dir.c
index 04b1c11..8d8bddd 100644
--- a/src/common/dir.c
+++ b/src/common/dir.c
@@ -143,10 +143,9 @@ int dir_open(char *dirname, char *pattern, int ic)
         if (pattern == NULL || wildmatch(dir->d_name, pattern, ic)) {
             BUF_COPY3(buf, name, "/", dir->d_name);
 
-            if (stat(buf, &st) == ERROR) {
-                dir_close();
-                return ERROR;
-            }
+            /* removed meanwhile or dangling link */
+            if (stat(buf, &st) == ERROR)
+                continue;
 
             if (dir_nentry >= dir_narray)
                 dir_resize(2 * dir_narray);
@@ -229,11 +228,18 @@ char *dir_search(char *dirname, char *filename)
     /* name --- file name to find, overwritten with correct case if found */
 {
     char name[MAXPATH];
+    char buf[MAXPATH];
     struct dirent *dir;
+    struct stat st;
     DIR *dp;
 
     BUF_EXPAND(name, dirname);
 
+    /* Names not differing in case first */
+    BUF_COPY3(buf, name, "/", filename);
+    if (!strchr(filename, '/') && stat(buf, &st) == OK)
+        return filename;
+
     /* Open and read directory */
     if (!(dp = opendir(name)))
         return NULL;
-- 
2.43.0


From 91f045fc67cd6d7b28a540a05118dfc8b572c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 51/86] fix: ftntick: password not checked, Replaces outside
 the area, one TIC blocking others, TIC fields written wrong, stale area list,
 TickFileAction without file

---
 src/common/areasbbs.c |  4 +++
 src/common/tick.c     | 51 +++++++++++++++++---------
 src/tick/ftntick.c    | 84 +++++++++++++++++++++++++------------------
 3 files changed, 89 insertions(+), 50 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 3e61aa8..b71a7e9 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -675,4 +675,8 @@ void areasbbs_free(void)
     }
     if (areasbbs_1stline)
         xfree(areasbbs_1stline);
+
+    areasbbs_list = NULL;
+    areasbbs_last = NULL;
+    areasbbs_1stline = NULL;
 }
diff --git a/src/common/tick.c b/src/common/tick.c
index f928166..b913141 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -94,29 +94,30 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     FILE *fp;
     LNode *p;
     Textline *pl;
+    int fd;
+    int err;
 
-    if (!creat(name, mode)) {
+    fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, mode);
+    if (fd == -1 || (fp = fdopen(fd, W_MODE)) == NULL) {
         fglog("ERROR: can't create file %s (%s)", name, strerror(errno));
+        if (fd != -1)
+            close(fd);
         return ERROR;
     }
 
-    if ((fp = fopen(name, W_MODE)) == NULL)
-        return ERROR;
-
-//    if(chmod(name, mode) == -1)
-//  fglog("WARNING: can't change mode for file %s (%s)", name, strerror(errno));
-
     fprintf(fp, "Area %s\r\n", tic->area);
-    fprintf(fp, "Origin %s\r\n", znf1(&tic->origin));
+    if (tic->origin.zone != -1)
+        fprintf(fp, "Origin %s\r\n", znf1(&tic->origin));
     fprintf(fp, "From %s\r\n", znf1(&tic->from));
     fprintf(fp, "File %s\r\n", tic->file);
     if (tic->replaces)
-        fprintf(fp, "Replaces %s\r\n", tic->file);
+        fprintf(fp, "Replaces %s\r\n", tic->replaces);
     fprintf(fp, "Desc %s\r\n", tic->desc.first ? tic->desc.first->line : "");
-    if (tic->ldesc.first)
-        fprintf(fp, "LDesc %s\r\n", tic->desc.first->line);
+    for (pl = tic->ldesc.first; pl; pl = pl->next)
+        fprintf(fp, "LDesc %s\r\n", pl->line);
     fprintf(fp, "CRC %08lX\r\n", tic->crc);
-    fprintf(fp, "Created %s\r\n", tic->created);
+    if (tic->created)
+        fprintf(fp, "Created %s\r\n", tic->created);
     fprintf(fp, "Size %lu\r\n", tic->size);
     fprintf(fp, "Date %ld\r\n", (long)tic->date);
     for (pl = tic->path.first; pl; pl = pl->next)
@@ -125,7 +126,13 @@ int tick_put(Tick * tic, char *name, mode_t mode)
         fprintf(fp, "Seenby %s\r\n", znf1(&p->node));
     fprintf(fp, "Pw %s\r\n", tic->pw);
 
-    return fclose(fp);
+    err = ferror(fp);
+    if (fclose(fp) == EOF || err) {
+        fglog("$ERROR: can't write to %s", name);
+        unlink(name);
+        return ERROR;
+    }
+    return OK;
 }
 
 /*
@@ -305,6 +312,7 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     Routing *r;
     LNode *p;
 #ifdef FECHO_PASSTHROUGHT
+    char box_name[MAXPATH];
     int errlvl;
 #endif
     if (!flav_dfl) {
@@ -367,7 +375,13 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
         if (errlvl == -1) {
             /* diffirent partition */
             if (errno == EXDEV) {
-                copy_file(name, buffer, "dir fault!");
+                BUF_COPY(box_name, buffer);
+                unlink(box_name);
+                /* copy_file() uses buffer */
+                if (copy_file(name, box_name, "dir fault!") == ERROR) {
+                    fglog("$ERROR: can't copy file %s -> %s", name, box_name);
+                    return ERROR;
+                }
             }
             /* file exist */
             else if (errno == EEXIST) {
@@ -403,7 +417,8 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     /*
      * Get password
      */
-    if ((pwd = passwd_lookup(MY_CONTEXT, node)))
+    if ((pwd = passwd_lookup(cf_get_string("EnableTickPassword", TRUE) ?
+                             "tic" : MY_CONTEXT, node)))
         pw = pwd->passwd;
     debug(4, "passwd: %s", pwd ? pwd->passwd : "-NONE-");
 
@@ -518,7 +533,11 @@ int copy_file(char *old, char *new, char *dir)
 
     /* Close */
     fclose(fold);
-    fclose(fnew);
+    if (fclose(fnew) == EOF) {
+        fglog("$ERROR: can't write to %s", new);
+        unlink(new);
+        return ERROR;
+    }
 
     return OK;
 }
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index d516c53..15f78f5 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -102,8 +102,8 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
     }
 
     hi_init_tic_history();
-    sprintf(buffer, "%s %s %s %lx", tic->area, znfp1(&tic->origin), tic->file,
-            tic->crc);
+    str_printf(buffer, sizeof(buffer), "%s %s %s %lx", tic->area,
+               znfp1(&tic->origin), tic->file, tic->crc);
     if (hi_test(buffer)
         && (!tic->replaces || stricmp(tic->file, tic->replaces) != 0)) {
 
@@ -133,8 +133,8 @@ static int ftntick_write_history(Tick *tic, bool w_flag)
     }
 
     hi_init_tic_history();
-    sprintf(buffer, "%s %s %s %lx", tic->area, znfp1(&tic->origin),
-            tic->file, tic->crc);
+    str_printf(buffer, sizeof(buffer), "%s %s %s %lx", tic->area,
+               znfp1(&tic->origin), tic->file, tic->crc);
 
     if (hi_write(tic->date, buffer) == ERROR)
         ret = ERROR;
@@ -158,6 +158,7 @@ int do_tic(int w_flag)
     time_t now;
     char *p;
     char bbslock[MAXPATH];
+    int rc;
 
     /* Inicialize tick structure */
     tick_init(&tic);
@@ -180,15 +181,23 @@ int do_tic(int w_flag)
             goto rename_to_bad;
         }
 
+        /* Other files than those of the inbound and area are not for us */
+        if (!tic.area || !tic.file || strchr(tic.file, '/') ||
+            (tic.replaces && strchr(tic.replaces, '/'))) {
+            fglog("ERROR: %s: no area, no or illegal file name", name);
+            goto rename_to_bad;
+        }
+
         /* Check file against Tick data */
-        if (check_file(&tic) == -2) {
+        rc = check_file(&tic);
+        if (rc == -2) {
             if ((p = cf_get_string("TickWaitHour", TRUE))) {
                 tic_wait = atoi(p);
             }
             now = time(NULL);
             if (stat(name, &st) == ERROR) {
-                fglog("$ERROR: can't stat() file %s", buf);
-                return EXIT_ERROR;
+                fglog("$ERROR: can't stat() file %s", name);
+                goto no_action;
             }
 
             debug(4, "file: name=%s time=%ld now=%ld wait=%d",
@@ -201,7 +210,7 @@ int do_tic(int w_flag)
                 p = cf_get_string("TickWaitAction", TRUE);
                 if (p == NULL) {
                     fglog("config: TickWaitAction not defined");
-                    return EXIT_ERROR;
+                    goto no_action;
                 }
                 if (strcmp(p, "bad") == 0) {
                     debug(4, "rename to bad tic %s", name);
@@ -210,10 +219,10 @@ int do_tic(int w_flag)
                 if (strcmp(p, "delete") == 0) {
                     debug(4, "delete tic %s", name);
                     unlink(name);
-                    continue;
                 }
+                goto no_action;
             }
-        } else if (check_file(&tic) == ERROR)
+        } else if (rc == ERROR)
             goto rename_to_bad;
 
         tick_debug(&tic, 3);
@@ -244,6 +253,14 @@ int do_tic(int w_flag)
             exit(EXIT_BUSY);
         }
 
+        /* May be changed by others up to now */
+        areasbbs_free();
+        if (areasbbs_init(areas_bbs) == ERROR) {
+            fglog("$ERROR: can't open %s", areas_bbs);
+            unlock_path(bbslock);
+            return ERROR;
+        }
+
         if (process_tic(&tic) == ERROR) {
             areasbbs_rewrite();
             unlock_path(bbslock);
@@ -261,7 +278,7 @@ int do_tic(int w_flag)
  */
             if (!no_tic_history) {
                 if (ftntick_write_history(&tic, w_flag) != 0)
-                    return ERROR;
+                    fglog("$ERROR: can't write history for %s", name);
             }
 
             areasbbs_rewrite();
@@ -302,14 +319,11 @@ int process_tic(Tick * tic)
     char new_name[MAXPATH];
     int is_unknown = FALSE;
     Node from_node;
-
-#ifdef FECHO_PASSTHROUGHT
-    char full_farea_dir[MAXPATH];
-#endif                          /* FECHO_PASSTHROUGHT */
     char *tmp = NULL;
     short create_flag = FALSE;
     char *s1;
     int errlvl;
+    int ret;
 
     AreaUplink *a;
     /*
@@ -387,9 +401,18 @@ int process_tic(Tick * tic)
             create_flag = TRUE;
         }
     }
+
+    /*
+     * Check password, already done if just created
+     */
+    if (!create_flag && !check_pass(tic, TRUE))
+        return ERROR;
+
     cf_set_zone(bbs->zone);
+    if (bbs->addr.zone != -1)
+        cf_set_curr(&bbs->addr);
 #ifdef BEST_AKA
-    if (bbs->nodes.first)
+    else if (bbs->nodes.first)
         cf_set_best(bbs->nodes.first->node.zone, bbs->nodes.first->node.net,
                     bbs->nodes.first->node.node);
 #endif                          /* BEST_AKA */
@@ -430,15 +453,11 @@ int process_tic(Tick * tic)
         if (tic->replaces && !cf_get_string("TickReplacedIgnore", TRUE)) {
             char *xrdir = cf_get_string("TickReplacedDir", TRUE);
 
+            BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
 #ifdef FECHO_PASSTHROUGHT
-            if (create_flag == TRUE)
-                BUF_COPY3(old_name, full_farea_dir, "/", tic->replaces);
-            else
-                BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
             if (check_access(old_name, CHECK_FILE) == TRUE &&
                 !(bbs->flags & AREASBBS_PASSTHRU))
 #else
-            BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
             if (check_access(old_name, CHECK_FILE) == TRUE)
 #endif                          /* FECHO_PASSTHROUGHT */
             {
@@ -609,12 +628,6 @@ int process_tic(Tick * tic)
                 return ERROR;
             }
         }
-        debug(9, "unlink %s", new_name);
-        unlink(new_name);
-        if (bbs->flags & AREASBBS_PASSTHRU) {
-            debug(9, "unlink %s", old_name);
-            unlink(old_name);
-        }
         /*
          * TickFileAction
          */
@@ -622,7 +635,6 @@ int process_tic(Tick * tic)
 
         for (s1 = cf_get_string(buffer, TRUE); s1 && *s1;
              s1 = cf_get_string(buffer, FALSE)) {
-            int ret;
             char *str_save;
             char *area;
             char *wild_file;
@@ -633,7 +645,7 @@ int process_tic(Tick * tic)
             if (!stricmp(tic->area, area)) {
                 wild_file = xstrtok(NULL, " \t");
                 tick_action = xstrtok(NULL, "\n");
-                if (wildmatch(tic->file, wild_file, TRUE)) {
+                if (wild_file && tick_action && wildmatch(tic->file, wild_file, TRUE)) {
                     if (!shell_safe(tic->file)) {
                         fglog("ERROR: no action for unsafe file name %s",
                               tic->file);
@@ -653,10 +665,12 @@ int process_tic(Tick * tic)
             }
             xfree(str_save);
         }
-#ifdef FECHO_PASSTHROUGHT
-        if (bbs->flags & AREASBBS_PASSTHRU)
-            unlink(new_name);
-#endif                          /* FECHO_PASSTHROUGHT */
+        debug(9, "unlink %s", new_name);
+        unlink(new_name);
+        if (bbs->flags & AREASBBS_PASSTHRU) {
+            debug(9, "unlink %s", old_name);
+            unlink(old_name);
+        }
     }
 
     return OK;
@@ -723,7 +737,9 @@ int move(Tick * tic, char *old, char *new, char *dir)
 #endif                          /* FTNTICK_NOCRC */
     struct utimbuf ut;
 
-    /* Copy */
+    /* Copy, the old file may be linked to the boxes of nodes */
+    if (access(old, R_OK) == 0)
+        unlink(new);
     if (copy_file(old, new, dir) == ERROR) {
         fglog("$ERROR: can't copy %s -> %s", old, new);
         return ERROR;
-- 
2.43.0


From 83a9065005205bb4e60788d9347b461b7cdb2d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 52/86] fix: description of a file could forge entries of the
 index

---
 src/tick/ftntick.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 15f78f5..67e12f4 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -818,6 +818,10 @@ int add_files_bbs(Tick * tic, char *dir)
         BUF_COPY(buf1, tic->desc.first->line);
         msg_xlate_line(buf1, sizeof(buf1), tic->desc.first->line,
                        ignore_soft_cr);
+        /* One line per file */
+        for (p = buf1; *p; p++)
+            if (*p == '\n')
+                *p = ' ';
 
         srclen = strlen(buf1) + 1;
         charset_recode_buf(&p, &dstlen, buf1, srclen, cs_def, cs_out);
-- 
2.43.0


From 266c1fc94c040045c6c0488732255779e703f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 53/86] fix: too long directory or expiry age overflowed;
 directory made by someone else meanwhile was an error

---
 src/common/dir.c     | 6 +++++-
 src/toss/ftnexpire.c | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/dir.c b/src/common/dir.c
index 8d8bddd..c6a5181 100644
--- a/src/common/dir.c
+++ b/src/common/dir.c
@@ -270,6 +270,10 @@ int mkdir_r(char *dir, mode_t mode)
 
     p = dir;
     n = strlen(dir);
+    if (n >= (int)sizeof(tmp) - 1) {
+        errno = ENAMETOOLONG;
+        return ERROR;
+    }
 
     while (n > i) {
         tmp[i] = *p;
@@ -287,7 +291,7 @@ int mkdir_r(char *dir, mode_t mode)
 
         if (check_access(tmp, CHECK_DIR) != TRUE) {
             fglog("make directory %s", tmp);
-            if (mkdir(tmp, mode) != 0)
+            if (mkdir(tmp, mode) != 0 && errno != EEXIST)
                 return ERROR;
         }
     }
diff --git a/src/toss/ftnexpire.c b/src/toss/ftnexpire.c
index d21badc..f361674 100644
--- a/src/toss/ftnexpire.c
+++ b/src/toss/ftnexpire.c
@@ -112,10 +112,12 @@ int do_expire(int type)
     /* Expire time (seconds) */
     GetTimeInfo(&ti);
     now_sec = ti.time;
-    max_sec = 24L * 3600L * max_history;
+    /* Never expires? (also if not representable) */
+    if (24.0 * 3600.0 * max_history < now_sec)
+        max_sec = 24L * 3600L * max_history;
+    else
+        max_sec = now_sec;
     exp_sec = now_sec - max_sec;
-    if (exp_sec < 0)
-        exp_sec = 0;
     debug(4, "expire: now=%ld max=%ld, expire < %ld",
           (long)now_sec, (long)max_sec, (long)exp_sec);
 
-- 
2.43.0


From dd74daa2fc204cdc58e0f62c93c185fd7d7cdf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 54/86] fix: s_printf/tmps_printf cut the result at 128 bytes

---
 src/common/tmps.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/common/tmps.c b/src/common/tmps.c
index c324428..61de978 100644
--- a/src/common/tmps.c
+++ b/src/common/tmps.c
@@ -179,6 +179,9 @@ void tmps_freeall(void)
 TmpS *tmps_printf(const char *fmt, ...)
 {
     va_list args;
+#ifdef HAVE_SNPRINTF
+    va_list ap;
+#endif
     TmpS *p;
     int n;
 
@@ -186,13 +189,15 @@ TmpS *tmps_printf(const char *fmt, ...)
 
     p = tmps_alloc(TMPS_PRINTF_BUFSIZE);
 #ifdef HAVE_SNPRINTF
-    do {
-        n = vsnprintf(p->s, p->len, fmt, args);
-        /* Resize if too small */
-        if (n == ERROR)
-            tmps_realloc(p, p->len * 2);
+    for (;;) {
+        va_copy(ap, args);
+        n = vsnprintf(p->s, p->len, fmt, ap);
+        va_end(ap);
+        /* Resize if too small, C99 returns the length needed */
+        if (n >= 0 && n < p->len)
+            break;
+        tmps_realloc(p, n >= 0 ? n + 1 : p->len * 2);
     }
-    while (n == ERROR);
 #else
     n = vsprintf(p->s, fmt, args);
     if (n >= p->len) {
@@ -303,6 +308,9 @@ void s_freeall(void)
 char *s_printf(const char *fmt, ...)
 {
     va_list args;
+#ifdef HAVE_SNPRINTF
+    va_list ap;
+#endif
     TmpS *p;
     int n;
 
@@ -310,13 +318,15 @@ char *s_printf(const char *fmt, ...)
 
     p = tmps_alloc(TMPS_PRINTF_BUFSIZE);
 #ifdef HAVE_SNPRINTF
-    do {
-        n = vsnprintf(p->s, p->len, fmt, args);
-        /* Resize if too small */
-        if (n == ERROR)
-            tmps_realloc(p, p->len * 2);
+    for (;;) {
+        va_copy(ap, args);
+        n = vsnprintf(p->s, p->len, fmt, ap);
+        va_end(ap);
+        /* Resize if too small, C99 returns the length needed */
+        if (n >= 0 && n < p->len)
+            break;
+        tmps_realloc(p, n >= 0 ? n + 1 : p->len * 2);
     }
-    while (n == ERROR);
 #else
     n = vsprintf(p->s, fmt, args);
     if (n >= p->len) {
-- 
2.43.0


From 345d6a029a5aa18eef0abf3a36eb52c1d2012dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 55/86] fix: ftninpost: envelope sender passed to shell
 unquoted, mail lost if it can't be set aside

---
 src/gate/ftninpost.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/gate/ftninpost.c b/src/gate/ftninpost.c
index 68c038b..e4c30ab 100644
--- a/src/gate/ftninpost.c
+++ b/src/gate/ftninpost.c
@@ -196,7 +196,8 @@ int unsplit_mail()
 int do_dir(char *cdir, int mode)
 {
     char *rfc_file;
-    char buf[MAXPATH + MAXINETADDR];
+    char sender[4 * MAXINETADDR];
+    char buf[MAXPATH + sizeof(sender)];
 
     if (dir_open(cdir, "*.rfc", TRUE) == ERROR) {
         debug(7, "can't open directory %s", cdir);
@@ -233,7 +234,11 @@ int do_dir(char *cdir, int mode)
                         break;
                     } else {
                         p = xstrtok(p + 5, " \t");
-                        str_printf(buf, sizeof(buf), ftnin_sendmail, p);
+                        if (!p)
+                            p = "";
+                        /* it comes from the message */
+                        shell_quote(sender, sizeof(sender), p);
+                        str_printf(buf, sizeof(buf), ftnin_sendmail, sender);
                         p = buf;
                     }
                 } else {
@@ -261,7 +266,6 @@ int do_dir(char *cdir, int mode)
             fp = freopen(rfc_file, R_MODE, stdin);
             if (fp != NULL) {
                 ret = run_system(p);
-                fclose(stdin);
             } else {
                 fglog("$ERROR: could not redirect stdin");
             }
@@ -271,8 +275,9 @@ int do_dir(char *cdir, int mode)
                 str_change_ext(bad, sizeof(bad), rfc_file, ".bad");
                 fglog("ERROR: bad rfcbatch renamed to %s", bad);
                 rename(rfc_file, bad);
+            } else {
+                unlink(rfc_file);
             }
-            unlink(rfc_file);
         }
     }
     dir_close();
-- 
2.43.0


From cf9c35db690e5b0ef4c9e5a4786721063d39993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 56/86] fix: encoded words: '?' unescaped in Q, padding and
 multibyte characters at the end of line; phrases of addresses

---
 src/common/mime.c | 79 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 11 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 8752007..f83e56d 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -232,6 +232,7 @@ struct mime_word_enc_state {
     size_t (*encode)(struct mime_word_enc_state * state, char *p, size_t len);
     char rem[B64_ENC_CHUNK];
     bool is_mime;               /* previous word is not plain */
+    bool is_phrase;             /* part of an address */
 };
 
 static size_t mime_b64_calc_len(char *t, size_t len)
@@ -459,6 +460,11 @@ static void mime_switch_to_plain(struct mime_word_enc_state *state)
     mime_word_end(state);
 }
 
+static bool mime_is_mb_tail(struct mime_word_enc_state *state, unsigned char c)
+{
+    return strieq(state->charset, "utf-8") && (c & 0xc0) == 0x80;
+}
+
 /* Get size of unfinished multibyte sequence. Only utf-8 supported */
 static size_t mime_get_mb_tail(struct mime_word_enc_state *state, char *p)
 {
@@ -499,9 +505,17 @@ static size_t mime_word_enc_b64(struct mime_word_enc_state *state,
 
     done = mime_add_reminder(state, &p, &len, limit);
 
-    /* no space for the reminder on this line, must not be overwritten */
-    if (state->rem_len != 0)
+    /*
+     * All is in the reminder or no space for more of it on this line. In
+     * the latter case the tail of a multibyte sequence has to be finished
+     * here (the chunk is reserved).
+     */
+    if (state->rem_len != 0) {
+        if (len != 0 && state->max_mb_chunks != 0
+            && mime_is_mb_tail(state, state->rem[0]))
+            mime_flush_reminder(state);
         return done;
+    }
 
     left = len;
 
@@ -536,7 +550,8 @@ static size_t mime_word_enc_b64(struct mime_word_enc_state *state,
 
     *(state->encoded_line + state->pos) = '\0';
 
-    if (left < B64_ENC_CHUNK)
+    /* the word may be padded already at the end of line */
+    if (left < B64_ENC_CHUNK && !end_of_line)
         done += mime_save_reminder(state, p, left);
 
     return done;
@@ -584,12 +599,26 @@ static int mime_7bit_try(struct mime_word_enc_state *state,
 
 #define QP_NLET_MAX 3           /* =XX */
 
+/* rfc 2047, '?' delimits parts of the encoded word */
+static bool mime_word_qp_is_plain(int c)
+{
+    return c != '?' && mime_qp_is_plain(c);
+}
+
+/* the same, but for the words in phrases and comments, rfc 2047 5 (3) */
+static bool mime_phrase_qp_is_plain(int c)
+{
+    return c != '.' && ((c >= '-' && c <= '9')
+                        || ((c >= 'A') && (c <= 'Z'))
+                        || ((c >= 'a') && (c <= 'z')));
+}
+
 static size_t mime_qp_calc_len(char *s, size_t len)
 {
     size_t sum = 0;
 
     for (; len > 0; --len, s++) {
-        if (mime_qp_is_plain(*s))
+        if (mime_word_qp_is_plain(*s))
             sum += 1;
         else
             sum += QP_NLET_MAX;
@@ -604,12 +633,13 @@ static size_t mime_qp_calc_len(char *s, size_t len)
  *
  * Returns amount of bytes written
  */
-static size_t _mime_qp_encode_octet(char *out, unsigned char in)
+static size_t _mime_qp_encode_octet(char *out, unsigned char in,
+                                    bool (*is_plain)(int c))
 {
     int len;
     char buf[QP_NLET_MAX + 1];  /* max encoded length =XX\0 */
 
-    if (mime_qp_is_plain(in)) {
+    if (is_plain(in)) {
         *out = in;
         return sizeof(*out);
     }
@@ -625,7 +655,10 @@ static void mime_qp_encode_octet(struct mime_word_enc_state *state,
     size_t produced;
 
     mime_check_and_inc_size(state, QP_NLET_MAX);
-    produced = _mime_qp_encode_octet(state->encoded_line + state->pos, in);
+    produced = _mime_qp_encode_octet(state->encoded_line + state->pos, in,
+                                     state->is_phrase
+                                     ? mime_phrase_qp_is_plain
+                                     : mime_word_qp_is_plain);
     state->pos += produced;
     state->vpos += produced;
 }
@@ -746,6 +779,7 @@ static void mime_header_enc_start(struct mime_word_enc_state *state,
     state->limit = MIME_STRING_LIMIT;
     state->rem_len = 0;
     state->is_mime = false;
+    state->is_phrase = false;
 
     switch (type) {
     case MIME_QP:
@@ -832,8 +866,7 @@ int mime_header_enc(char **dst, char *src, char *charset, int enc)
         token = token_end;
 
         /* first skip spaces */
-        while ((*token_end == ' ' || *token_end == '\t' || *token == '\n')
-               && *token_end != '\0')
+        while (*token_end == ' ' || *token_end == '\t')
             token_end++;
 
         if (*token_end == '\0') {
@@ -842,7 +875,7 @@ int mime_header_enc(char **dst, char *src, char *charset, int enc)
         }
 
         /* then find next space or EOL */
-        while (*token_end != ' ' && *token_end != '\t' && *token != '\n'
+        while (*token_end != ' ' && *token_end != '\t'
                && *token_end != '\0')
             token_end++;
     }
@@ -855,6 +888,29 @@ int mime_header_enc(char **dst, char *src, char *charset, int enc)
     return OK;
 }
 
+/*
+ * Encodes the whole @src, the display name from an address of the header
+ * @name. It can not be encoded together with the address itself or with
+ * the delimiters around the name.
+ *
+ * Result is \n terminated
+ */
+int mime_phrase_enc(char **dst, char *name, char *src, char *charset, int enc)
+{
+    struct mime_word_enc_state state;
+
+    mime_header_enc_start(&state, charset, enc);
+    state.is_phrase = true;
+
+    mime_strcat(&state, name);
+    mime_word_enc(&state, src, strlen(src));
+
+    mime_header_enc_end(&state);
+    *dst = state.encoded_line;
+
+    return OK;
+}
+
 void mime_b64_encode_tl(Textlist * in, Textlist * out)
 {
     TextlistCharIterator iter;
@@ -976,7 +1032,8 @@ void mime_qp_encode_tl(Textlist * in, Textlist * out)
             pos = 0;
         }
 
-        len_encoded = _mime_qp_encode_octet(buf + pos, ibuf[0]);
+        len_encoded = _mime_qp_encode_octet(buf + pos, ibuf[0],
+                                            mime_qp_is_plain);
         pos += len_encoded;
         len = tl_char_iterator_next(&iter, ibuf, sizeof(ibuf));
     }
-- 
2.43.0


From 138ef27883b19c125429381a00f16d0cbb974716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 57/86] fix: ftn2rfc: header injection by names and kludges,
 double recoding, addresses encoded with the names, 8-bit text declared 7bit,
 encoded Newsgroups

---
 src/common/bounce.c      |  30 ++--
 src/common/rfcaddr.c     |  59 +++++++-
 src/gate/ftn2rfc.c       | 319 +++++++++++++++++++++++++++++++++++----
 src/include/prototypes.h |   3 +
 4 files changed, 368 insertions(+), 43 deletions(-)

diff --git a/src/common/bounce.c b/src/common/bounce.c
index 38393c6..39578eb 100644
--- a/src/common/bounce.c
+++ b/src/common/bounce.c
@@ -38,6 +38,16 @@ void bounce_set_cc(char *cc)
     bounce_ccmail = cc;
 }
 
+/*
+ * Print a value from the message. It goes to a line of the header as well,
+ * so it must be one line.
+ */
+static void print_value(char *s, FILE *out)
+{
+    for (; *s; s++)
+        putc(iscntrl((unsigned char)*s) ? ' ' : *s, out);
+}
+
 /*
  * Print text file with substitutions for %x
  */
@@ -64,35 +74,35 @@ int print_file_subst(FILE * in, FILE * out, Message * msg, char *rfc_to,
                 fputs(date(NULL, &msg->date), out);
                 break;
             case 't':          /* To name */
-                fputs(msg->name_to, out);
+                print_value(msg->name_to, out);
                 break;
             case 'f':          /* From name */
-                fputs(msg->name_from, out);
+                print_value(msg->name_from, out);
                 break;
             case 's':          /* Subject */
-                fputs(msg->subject, out);
+                print_value(msg->subject, out);
                 break;
             case 'R':          /* RFC To: */
-                fputs(rfc_to, out);
+                print_value(rfc_to, out);
                 break;
             case 'M':          /* Message */
                 tl_print(body, out);
                 break;
             case 'A':          /* RFC From: */
                 if ((hg = s_header_getcomplete(h, "From")))
-                    fputs(hg, out);
+                    print_value(hg, out);
                 break;
             case 'D':          /* RFC Date: */
                 if ((hg = header_get(h, "Date")))
-                    fputs(hg, out);
+                    print_value(hg, out);
                 break;
             case 'N':          /* RFC Newsgroups: */
                 if ((hg = header_get(h, "Newsgroups")))
-                    fputs(hg, out);
+                    print_value(hg, out);
                 break;
             case 'S':          /* RFC Subject: */
                 if ((hg = header_get(h, "Subject")))
-                    fputs(hg, out);
+                    print_value(hg, out);
                 break;
             }
         } else
@@ -121,7 +131,9 @@ int bounce_header(char *to)
     fprintf(mail_file('m'), "Date: %s\n", date(NULL, NULL));
     fprintf(mail_file('m'),
             "From: Mailer-Daemon@%s (Mail Delivery Subsystem)\n", cf_fqdn());
-    fprintf(mail_file('m'), "To: %s\n", to);
+    fprintf(mail_file('m'), "To: ");
+    print_value(to, mail_file('m'));
+    fprintf(mail_file('m'), "\n");
     if (bounce_ccmail)
         fprintf(mail_file('m'), "Cc: %s\n", bounce_ccmail);
     /* Additional header may follow in message file */
diff --git a/src/common/rfcaddr.c b/src/common/rfcaddr.c
index d6e3608..5215154 100644
--- a/src/common/rfcaddr.c
+++ b/src/common/rfcaddr.c
@@ -291,6 +291,61 @@ RFCAddr rfcaddr_from_rfc(char *addr)
     return rfc;
 }
 
+/*
+ * Real name as a comment, without () around. They can be nested, but must
+ * be balanced.
+ */
+char *s_rfcaddr_comment(char *real)
+{
+    static char buf[2 * MAXUSERNAME];
+    int level = 0;
+    bool balanced = true;
+    size_t i;
+    char *p;
+
+    for (p = real; *p; p++) {
+        if (*p == '(')
+            level++;
+        if (*p == ')' && --level < 0)
+            balanced = false;
+    }
+    if (level != 0)
+        balanced = false;
+
+    for (i = 0, p = real; *p && i < sizeof(buf) - 2; p++) {
+        if (*p == '\\' || (!balanced && (*p == '(' || *p == ')')))
+            buf[i++] = '\\';
+        buf[i++] = *p;
+    }
+    buf[i] = '\0';
+
+    return buf;
+}
+
+/*
+ * Real name as a phrase before <>, quoted if necessary
+ */
+char *rfcaddr_phrase(char *real)
+{
+    static char buf[2 * MAXUSERNAME + 2];
+    size_t i = 0;
+    char *p;
+
+    if (strpbrk(real, NOT_ALLOWED_ATOMS) == NULL)
+        return real;
+
+    buf[i++] = '"';
+    for (p = real; *p && i < sizeof(buf) - 3; p++) {
+        if (strchr(NOT_ALLOWED_QTEXT, *p))
+            buf[i++] = '\\';
+        buf[i++] = *p;
+    }
+    buf[i++] = '"';
+    buf[i] = '\0';
+
+    return buf;
+}
+
 /*
  * s_rfcaddr_to_asc() --- Text representation of RFCAddr
  */
@@ -302,12 +357,12 @@ char *s_rfcaddr_to_asc(RFCAddr * rfc, int real_flag)
             /* user@do.main (Real Name) */
             return s_printf("%s%s%s (%s)",
                             rfc->user, rfc->addr[0] ? "@" : "",
-                            rfc->addr, rfc->real);
+                            rfc->addr, s_rfcaddr_comment(rfc->real));
         }
         if (addr_mode == 1) {
             /* Real Name <user@do.main> */
             return s_printf("%s <%s%s%s>",
-                            rfc->real,
+                            rfcaddr_phrase(rfc->real),
                             rfc->user, rfc->addr[0] ? "@" : "", rfc->addr);
         }
     }
diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 072ad9e..4141b1c 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -338,19 +338,92 @@ struct encoding_state {
     bool plain_headers;
 };
 
+/* Headers with addresses */
+static char *addr_headers[] = {
+    "From:",
+    "Reply-To:",
+    "To:",
+    "Cc:",
+    "Bcc:",
+    "X-Orig-To:",
+    "Errors-To:",
+    "Return-Receipt-To:",
+};
+
+static bool is_listed_header(char *line, char **list, size_t n)
+{
+    size_t i;
+
+    for (i = 0; i < n; i++)
+        if (strncasecmp(line, list[i], strlen(list[i])) == 0)
+            return true;
+
+    return false;
+}
+
+#define IS_LISTED_HEADER(line, list) \
+    is_listed_header(line, list, sizeof(list) / sizeof(list[0]))
+
+/*
+ * The header takes exactly one line, its contents come from the message
+ */
+static void make_one_line(char *line, char *charset)
+{
+    bool keep_esc = charset && strnieq(charset, "iso-2022", 8);
+    char *p;
+
+    for (p = line; *p; p++) {
+        if (!iscntrl((unsigned char)*p) || *p == '\t')
+            continue;
+        if ((*p == '\n' && p[1] == '\0') || (*p == '\033' && keep_esc))
+            continue;
+        *p = ' ';
+    }
+}
+
+#define ADDR_SPECIALS "()<>@,;:\\\"[]%!"
+/* not allowed in a user name without quotes */
+#define NAME_SPECIALS "()<>,;:\\\"[]"
+
+/*
+ * Check if both of the strings have the same special characters in the
+ * same order
+ */
+static bool same_specials(char *a, char *b)
+{
+    for (;; a++, b++) {
+        a += strcspn(a, ADDR_SPECIALS);
+        b += strcspn(b, ADDR_SPECIALS);
+        if (*a != *b)
+            return false;
+        if (*a == '\0')
+            return true;
+    }
+}
+
+/*
+ * Recode contents of the header. The name is ours, so it is kept.
+ */
 static int recode_header(Textline * tl, struct encoding_state *state)
 {
-    size_t len;
+    bool is_addr;
+    size_t name_len;
+    char *value;
+    char *p;
     char *tmpbuf;
+    char *line;
     int rc;
-    size_t size;
     size_t new_size;
 
-    len = strlen(tl->line);
-    size = len + 1;
+    name_len = strcspn(tl->line, ":");
+    value = tl->line + name_len;
+
+    /* structure of an address must not depend on the message's charset */
+    is_addr = IS_LISTED_HEADER(tl->line, addr_headers);
+    if (is_addr && charset_is_7bit(value, strlen(value)))
+        return OK;
 
-    /* recode with the header's name, hopefully no charset amend ascii */
-    rc = charset_recode_buf(&tmpbuf, &new_size, tl->line, size,
+    rc = charset_recode_buf(&tmpbuf, &new_size, value, strlen(value) + 1,
                             state->cs_in, state->cs_out);
 
     if (rc != OK) {
@@ -359,8 +432,31 @@ static int recode_header(Textline * tl, struct encoding_state *state)
         return ERROR;
     }
 
+    if (is_addr && !same_specials(value, tmpbuf)) {
+        xfree(tmpbuf);
+        tmpbuf = strsave(value);
+        for (p = tmpbuf; *p; p++)
+            if (*p & 0x80)
+                *p = '?';
+    }
+
+    line = xmalloc(name_len + strlen(tmpbuf) + 3);
+    memcpy(line, tl->line, name_len);
+    strcpy(line + name_len, tmpbuf);
+    if (line[name_len] != ':') {
+        /* unusual charset, not compatible with ASCII */
+        memmove(line + name_len + 1, line + name_len,
+                strlen(line + name_len) + 1);
+        line[name_len] = ':';
+    }
+
+    make_one_line(line, state->cs_out);
+    if (line[strlen(line) - 1] != '\n')
+        strcat(line, "\n");
+
+    xfree(tmpbuf);
     xfree(tl->line);
-    tl->line = tmpbuf;
+    tl->line = line;
 
     return OK;
 }
@@ -385,25 +481,169 @@ static char *encode_skip[] = {
     "Path:",
     "Message-ID:",
     "References:",
+    "Newsgroups:",
+    "Followup-To:",
+    "Distribution:",
     "From ",
 };
 
+/*
+ * Remove \ quoting and " around
+ */
+static void unquote(char *s)
+{
+    char *d;
+
+    for (d = s; *s; s++) {
+        if (*s == '"')
+            continue;
+        if (*s == '\\' && s[1])
+            s++;
+        *d++ = *s;
+    }
+    *d = '\0';
+}
+
+static size_t max_word_len(char *s)
+{
+    size_t len, max = 0;
+
+    while (*s) {
+        len = strcspn(s, " \t");
+        if (len > max)
+            max = len;
+        s += len;
+        s += strspn(s, " \t");
+    }
+
+    return max;
+}
+
+/*
+ * Encode header with the only address, either
+ *     user@domain (Full Name)
+ * or
+ *     Full Name <user@domain>
+ * where the name needs encoding. The address and delimiters must be left
+ * as is.
+ */
+static int encode_addr(char **dst, char *line, char *charset, int enc)
+{
+    size_t name_len = strcspn(line, ":") + 1;
+    char *start = line + name_len;
+    char *buf;
+    char *name;
+    char *addr;
+    char *words;
+    char *p, *q;
+    int rc = ERROR;
+
+    while (is_blank(*start))
+        start++;
+    buf = strsave(start);
+    strip_space(buf);
+
+    if (buf[0] == '\0')
+        goto out;
+
+    /* plain name, the words can be encoded separately */
+    p = strpbrk(start, ADDR_SPECIALS);
+    if (p && *p == '<' && p > start && is_blank(p[-1])
+        && charset_is_7bit(p, strlen(p))
+        && max_word_len(p) <= MIME_STRING_LIMIT - 2)
+        goto out;
+
+    if (buf[strlen(buf) - 1] == '>' && (p = strrchr(buf, '<'))) {
+        *p = '\0';
+        name = buf;
+        addr = p + 1;
+        addr[strlen(addr) - 1] = '\0';
+
+        /* one address only */
+        if (name[0] == '"') {
+            for (q = name + 1; *q && *q != '"'; q++)
+                if (*q == '\\' && q[1])
+                    q++;
+            if (*q == '"')
+                q++;
+        } else {
+            q = name;
+        }
+        if (strpbrk(q, ADDR_SPECIALS))
+            goto out;
+        if (strchr(addr, ',') || !charset_is_7bit(addr, strlen(addr)))
+            goto out;
+
+        unquote(name);
+        strip_space(name);
+        if (charset_is_7bit(name, strlen(name)))
+            goto out;
+
+        p = xmalloc(name_len + 1);
+        str_copy(p, name_len + 1, line);
+        rc = mime_phrase_enc(&words, p, name, charset, enc);
+        xfree(p);
+
+        p = s_printf("%s <%s>\n", words, addr);
+        xfree(words);
+        *dst = strsave(p);
+    } else if (buf[strlen(buf) - 1] == ')' && (p = strchr(buf, '('))) {
+        *p = '\0';
+        addr = buf;
+        name = p + 1;
+        name[strlen(name) - 1] = '\0';
+
+        strip_space(addr);
+        if (!charset_is_7bit(addr, strlen(addr)))
+            goto out;
+
+        /* no text after the comment */
+        for (q = name, p = NULL, rc = 0; *q; q++) {
+            if (*q == '\\' && q[1])
+                q++;
+            else if (*q == '(')
+                rc++;
+            else if (*q == ')')
+                rc--;
+            if (rc < 0)
+                break;
+        }
+        if (rc != 0) {
+            rc = ERROR;
+            goto out;
+        }
+        for (q = p = name; *q; q++) {
+            if (*q == '\\' && q[1])
+                q++;
+            *p++ = *q;
+        }
+        *p = '\0';
+
+        rc = mime_phrase_enc(&words, "(", name, charset, enc);
+        words[strlen(words) - 1] = '\0';        /* \n */
+        p = s_printf("%.*s %s\n %s)\n", (int)name_len, line, addr, words);
+        xfree(words);
+        *dst = strsave(p);
+    }
+
+ out:
+    xfree(buf);
+    return rc;
+}
+
 static int encode_header(Textline * tl, void *arg)
 {
     struct encoding_state *state = arg;
     char *tmpbuf = NULL;
     int rc;
     size_t len;
-    int i;
     int enc = state->cvt8;
+    bool is_addr;
 
-    for (i = 0; i < sizeof(encode_skip) / sizeof(encode_skip[0]); i++) {
-        size_t len;
+    make_one_line(tl->line, state->cs_in);
 
-        len = strlen(encode_skip[i]);
-        if (strncasecmp(tl->line, encode_skip[i], len) == 0)
-            return OK;
-    }
+    if (IS_LISTED_HEADER(tl->line, encode_skip))
+        return OK;
 
     rc = recode_header(tl, state);
     if (rc != OK)
@@ -417,7 +657,18 @@ static int encode_header(Textline * tl, void *arg)
         return OK;
 
     enc = sanitize_encoding(enc);
-    rc = mime_header_enc(&tmpbuf, tl->line, state->cs_out, enc);
+    rc = ERROR;
+    if (IS_LISTED_HEADER(tl->line, addr_headers)) {
+        if (charset_is_7bit(tl->line, len)) {
+            /* too long ones would be encoded with the address */
+            if (max_word_len(tl->line) > MIME_STRING_LIMIT - 2)
+                return OK;
+        } else {
+            rc = encode_addr(&tmpbuf, tl->line, state->cs_out, enc);
+        }
+    }
+    if (rc != OK)
+        rc = mime_header_enc(&tmpbuf, tl->line, state->cs_out, enc);
     if (rc != OK)
         return OK;              /* skip misformatted */
 
@@ -495,6 +746,9 @@ static void ftn2rfc_finish_mime(Textlist * hdr, Textlist * body,
     if (!check_8bit(body)) {
         body_encoding = MIME_7BIT;
         debug(5, "Body encoding switched to 7bit\n");
+    } else if (body_encoding == MIME_7BIT) {
+        /* wrong Content-Transfer-Encoding in the message */
+        body_encoding = MIME_DEFAULT;
     }
 
     if (mime_type == NULL) {
@@ -636,6 +890,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
     char *carbon_group = NULL;
     int addr_is_restricted = FALSE;
     bool plain_headers = false;
+    bool to_field;              /* mail_to is from the To field */
     RFCHeader *h;
 
     /*
@@ -663,6 +918,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
 
     while ((type == MSG_TYPE) && !xfeof(pkt_file)) {
         x_orig_to[0] = 0;
+        to_field = false;
         mail_to[0] = 0;
         tl_clear(&theader);
         tl_clear(&tbody);
@@ -679,6 +935,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
             break;
         }
 
+        /* They must not start a new line */
+        make_one_line(msg.name_from, NULL);
+        make_one_line(msg.name_to, NULL);
+
         /* Strip spaces at end of line */
         strip_space(msg.name_from);
         strip_space(msg.name_to);
@@ -938,23 +1198,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
          * RFC address headers from text body
          */
         msgbody_rfc_from = get_from(&body.rfc, &body.kludge);
-        if ((pt = xlat_s(msgbody_rfc_from, NULL)))
-            msgbody_rfc_from = pt;
         msgbody_rfc_to = get_to(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_to, NULL)))
-            msgbody_rfc_to = pt;
         msgbody_rfc_reply_to = get_reply_to(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_reply_to, NULL)))
-            msgbody_rfc_reply_to = pt;
         msgbody_rfc_cc = get_cc(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_cc, NULL)))
-            msgbody_rfc_cc = pt;
         msgbody_rfc_bcc = get_bcc(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_bcc, NULL)))
-            msgbody_rfc_bcc = pt;
         msgbody_rfc_subject = get_subject(&body.rfc);
-        if ((pt = xlat_s(msgbody_rfc_subject, NULL)))
-            msgbody_rfc_subject = pt;
 
         /*
          * If kill_split is set, skip messages with ^ASPLIT
@@ -1059,7 +1307,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
                             *t = '_';
                         t++;
                     }
-                    BUF_COPY5(mail_to, msg.name_to, " <", a->username, "@",
+                    BUF_COPY5(mail_to, rfcaddr_phrase(msg.name_to), " <",
+                              a->username, "@",
                               a->userdom);
 
                     BUF_APPEND(mail_to, ">");
@@ -1068,8 +1317,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
                           a->username, znfp1(&a->node), a->fullname);
                     BUF_COPY(mail_to, a->username);
                 }
-            } else
+            } else {
                 BUF_COPY(mail_to, addr_to.user);
+                to_field = true;
+            }
         }
 
         /* Special handling for -t flag (insecure): Messages with To
@@ -1103,6 +1354,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 debug(1, "Mail from FIDO message tracker");
                 BUF_COPY(x_orig_to, mail_to);
                 BUF_COPY(mail_to, tracker_mail_to);
+                to_field = false;
                 /* Reset uucp_flag to avoid bouncing of these messages */
                 uucp_flag = FALSE;
             }
@@ -1160,7 +1412,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
          * Check for address in mail_to
          */
 
-        if (area == NULL) {
+        if (area == NULL && to_field) {
             if (strchr(mail_to, '@') || strchr(mail_to, '%') ||
                 strchr(mail_to, '!')) {
                 if (no_address_in_to_field) {
@@ -1178,7 +1430,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 } else
                     if ((p = strchr(msg.name_to, '@')) ||
                         (p = strchr(msg.name_to, '%')))
-                    if (check_valid_domain(p + 1))
+                    if (check_valid_domain(p + 1)
+                        && strcspn(msg.name_to, NAME_SPECIALS)
+                        >= p - msg.name_to)
                         /* Copy again to avoid "..." */
                         BUF_COPY(mail_to, msg.name_to);
             }
@@ -1235,7 +1489,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 !*addr_to.real || uucp_flag)
                 to_line = s_printf("%s", msgbody_rfc_to);
             else
-                to_line = s_printf("%s (%s)", msgbody_rfc_to, addr_to.real);
+                to_line = s_printf("%s (%s)", msgbody_rfc_to,
+                                   s_rfcaddr_comment(addr_to.real));
         } else {
             if (area)
                 to_line = s_printf("%s", addr_to.real);
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 653a477..b9646a1 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -374,6 +374,7 @@ char *mime_dequote(char *, size_t, char *);
 char *mime_header_dec(char *, size_t, char *, char *, char *, RFCHeader *);
 Textlist *mime_body_dec(Textlist *, RFCHeader *, char *, char *);
 int mime_header_enc(char **, char *, char *, int);
+int mime_phrase_enc(char **, char *, char *, char *, int);
 void mime_b64_encode_tl(Textlist * in, Textlist * out);
 void mime_qp_encode_tl(Textlist * in, Textlist * out);
 
@@ -571,6 +572,8 @@ void rfcaddr_mode(int);
 RFCAddr rfcaddr_from_ftn(char *, Node *);
 RFCAddr rfcaddr_from_rfc(char *);
 char *s_rfcaddr_to_asc(RFCAddr *, int);
+char *s_rfcaddr_comment(char *);
+char *rfcaddr_phrase(char *);
 void rfcaddr_fallback_username(char *);
 
 /* rfcheader.c */
-- 
2.43.0


From 0d15c873287c18cc39287dcf0a08e213292e7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 58/86] fix: ftn2rfc: charsets incompatible with ASCII changed
 header lines, invalid sender from kludges, blank continuation lines

---
 src/gate/ftn2rfc.c | 60 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 4141b1c..7f69b1c 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -385,6 +385,26 @@ static void make_one_line(char *line, char *charset)
 /* not allowed in a user name without quotes */
 #define NAME_SPECIALS "()<>,;:\\\"[]"
 
+/*
+ * Check that sender's address from the message is one address
+ */
+static bool is_single_address(RFCAddr *rfc)
+{
+    char *p = rfc->user;
+
+    if (*p == '"') {
+        for (p++; *p && *p != '"'; p++)
+            if (*p == '\\' && p[1])
+                p++;
+        if (p[0] != '"' || p[1] != '\0')
+            return false;
+    } else if (strpbrk(p, NAME_SPECIALS " \t")) {
+        return false;
+    }
+
+    return !strpbrk(rfc->addr, "()<>,;\\\" \t");
+}
+
 /*
  * Check if both of the strings have the same special characters in the
  * same order
@@ -401,6 +421,27 @@ static bool same_specials(char *a, char *b)
     }
 }
 
+/*
+ * The message is a plain text with the lines and headers found already,
+ * so the charset must not change them (EBCDIC, UTF-16)
+ */
+static bool charset_has_ascii(char *cs_in, char *cs_out)
+{
+    static char text[] = "ABCXYZ abcxyz: 0189-.\r\n";
+    char *buf;
+    size_t size;
+    bool same;
+
+    if (charset_recode_buf(&buf, &size, text, sizeof(text),
+                           cs_in, cs_out) != OK)
+        return false;
+
+    same = strcmp(buf, text) == 0;
+    xfree(buf);
+
+    return same;
+}
+
 /*
  * Recode contents of the header. The name is ours, so it is kept.
  */
@@ -420,7 +461,8 @@ static int recode_header(Textline * tl, struct encoding_state *state)
 
     /* structure of an address must not depend on the message's charset */
     is_addr = IS_LISTED_HEADER(tl->line, addr_headers);
-    if (is_addr && charset_is_7bit(value, strlen(value)))
+    if (is_addr && charset_is_7bit(value, strlen(value))
+        && !strchr(value, '\033'))
         return OK;
 
     rc = charset_recode_buf(&tmpbuf, &new_size, value, strlen(value) + 1,
@@ -656,6 +698,12 @@ static int encode_header(Textline * tl, void *arg)
     if (charset_is_7bit(tl->line, len) && len <= MIME_STRING_LIMIT)
         return OK;
 
+    /* the blanks could become a line of their own */
+    strip_space(tl->line);
+    tl->line = xrealloc(tl->line, strlen(tl->line) + 2);
+    strcat(tl->line, "\n");
+    len = strlen(tl->line);
+
     enc = sanitize_encoding(enc);
     rc = ERROR;
     if (IS_LISTED_HEADER(tl->line, addr_headers)) {
@@ -1183,6 +1231,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
             cs_out = CHARSET_STDRFC;
 
         cs_in = charset_fsc_canonize(cs_in);
+        if (!charset_has_ascii(cs_in, cs_out)) {
+            fglog("WARNING: charset %s can't be used, using default", cs_in);
+            cs_in = charset_fsc_canonize(cs_def);
+        }
         charset_set_in_out(cs_in, cs_out);
 
         addr_from = rfcaddr_from_ftn(msg.name_from, &msg.node_orig);
@@ -1476,7 +1528,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
             if (!rfc.real[0])
                 BUF_COPY(rfc.real, addr_from.real);
 
-            addr_from = rfc;
+            if (is_single_address(&rfc))
+                addr_from = rfc;
+            else
+                fglog("WARNING: invalid RFC sender %s ignored",
+                      msgbody_rfc_from);
         }
         from_line = s_rfcaddr_to_asc(&addr_from, TRUE);
 
-- 
2.43.0


From 3ccda7da36f5c5075087eb97da323eaa670cff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 59/86] fix: FTN message id gated back got own address
 prepended; reply linked to another system's message with the same serial
 number

---
 src/common/msgid.c | 9 ++++++++-
 src/gate/rfc2ftn.c | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index 42e3fde..accbdeb 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -214,7 +214,14 @@ char *s_msgid_fido_to_rfc(char *msgid, int *pzone, bool mail, char *ref_line,
         s = msgid_dbc_fetch(msgid);
 
         if (s) {
-            return s;
+            /*
+             * Only serial number is looked up, so converted id of an FTN
+             * message can be from another system. Convert as usual then.
+             */
+            if (strncmp(s, "<MSGID_", 7) != 0) {
+                xfree(save);
+                return s;
+            }
         } else {
             if (ref_line) {
                 ret = ref_line;
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index f3f2d12..4085abf 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1113,7 +1113,8 @@ static int snd_message(Message * msg, Area * parea,
                                  no_dbc_history,
                                  no_fido_style_msgid);
         if (id) {
-            if (no_fido_style_msgid && !x_flags_m)     /* X-Flags: m */
+            /* complete id or X-Flags: m */
+            if (!flag || (no_fido_style_msgid && !x_flags_m))
                 fprintf(sf, "\001MSGID: %s\r", id);
             else {
                 if (!echogate_alias)
-- 
2.43.0


From ee8d5584df8be3fe677e42cdf95fa04e77723695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 60/86] fix: ftn2rfc: 8-bit sender address from the message
 broke the structure of From

---
 src/gate/ftn2rfc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 7f69b1c..f61f1b1 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -392,6 +392,10 @@ static bool is_single_address(RFCAddr *rfc)
 {
     char *p = rfc->user;
 
+    if (!charset_is_7bit(p, strlen(p))
+        || !charset_is_7bit(rfc->addr, strlen(rfc->addr)))
+        return false;
+
     if (*p == '"') {
         for (p++; *p && *p != '"'; p++)
             if (*p == '\\' && p[1])
-- 
2.43.0


From 4684b808b771492d944185f4189e01f76a73f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 61/86] fix: lock of another process was removed or ignored by
 ftnaf and ftnafpkt, locks left behind, packets listed before getting the
 lock, -w 1 waited forever

---
 src/areafix/ftnaf.c      |  29 ++++++----
 src/areafix/ftnafpkt.c   | 113 +++++++++++++++------------------------
 src/areafix/ftnafutil.c  |   1 +
 src/areafix/pkttmpl.c    |  18 ++++---
 src/common/lock.c        |  23 +++-----
 src/include/prototypes.h |   3 +-
 src/toss/ftnroute.c      |  55 +++++++++++--------
 src/toss/ftntoss.c       |  24 +++++----
 8 files changed, 131 insertions(+), 135 deletions(-)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 031d449..0bab128 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -325,16 +325,18 @@ int main(int argc, char **argv)
             BUF_COPY2(bbslock, areas_bbs, ".lock");
             if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT))
                 ret = EX_OSERR;
-            if (areasbbs_init(areafix_areasbbs()) == ERROR)
-                ret = EX_OSFILE;
-            else
-                ret = do_mail();
-            if (ret == 0 && !n_flag)
-                if (areasbbs_rewrite() == ERROR)
-                    ret = EX_CANTCREAT;
-            unlock_path(bbslock);
+            else {
+                if (areasbbs_init(areafix_areasbbs()) == ERROR)
+                    ret = EX_OSFILE;
+                else
+                    ret = do_mail();
+                if (ret == 0 && !n_flag)
+                    if (areasbbs_rewrite() == ERROR)
+                        ret = EX_CANTCREAT;
+                unlock_path(bbslock);
+            }
+            unlock_program(PROGRAM);
         }
-        unlock_program(PROGRAM);
     } else {
         /*
          * Process command on command line
@@ -359,7 +361,15 @@ int main(int argc, char **argv)
 
         areafix_auth_check(&node, NULL, FALSE);
 
+        BUF_COPY2(bbslock, areas_bbs, ".lock");
+        if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+            areafix_free();
+            exit_free();
+            return EX_OSERR;
+        }
+
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             areafix_free();
             exit_free();
             return EX_OSFILE;
@@ -380,6 +390,7 @@ int main(int argc, char **argv)
         if (ret == 0 && !n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EX_CANTCREAT;
+        unlock_path(bbslock);
     }
 
     areafix_free();
diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 04e37ec..8e3b5fd 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -509,77 +509,48 @@ int main(int argc, char **argv)
     /***** Main processing loop *****/
     ret = EXIT_OK;
 
-    if (optind >= argc) {
-        /* process packet files in directory */
-        dir_sortmode(DIR_SORTMTIME);
-        if (dir_open(in_dir, "*.pkt", TRUE) == ERROR) {
-            fglog("ERROR: can't open directory %s", in_dir);
-            exit_free();
-            return EXIT_ERROR;
-        }
-
-        /* Lock file */
-        if (l_flag)
-            if (lock_program(PROGRAM, NOWAIT) == ERROR) {
-                /* Already busy */
-                exit_free();
-                return EXIT_BUSY;
-            }
-
-        BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
-        if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+    /* Lock file */
+    if (l_flag)
+        if (lock_program(PROGRAM, NOWAIT) == ERROR) {
+            /* Already busy */
             exit_free();
             return EXIT_BUSY;
         }
 
-        /* Read areas.bbs */
-        if (areasbbs_init(areafix_areasbbs()) == ERROR) {
-            if (l_flag)
-                unlock_program(PROGRAM);
-            exit_free();
-            return EXIT_ERROR;
-        }
-
-        for (pkt_name = dir_get(TRUE); pkt_name; pkt_name = dir_get(FALSE)) {
-            if (do_file(pkt_name) == ERROR) {
-                ret = EXIT_ERROR;
-                break;
-            }
-            if (must_exit) {
-                ret = EXIT_CONTINUE;
-                break;
-            }
-        }
-
-        dir_close();
-
-        /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
-            if (areasbbs_rewrite() == ERROR)
-                ret = EXIT_ERROR;
-
-        unlock_path(bbslock);
-
-        /* Lock file */
+    BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
+    if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
         if (l_flag)
             unlock_program(PROGRAM);
-    } else {
-        /* Lock file */
-        if (l_flag)
-            if (lock_program(PROGRAM, NOWAIT) == ERROR) {
-                /* Already busy */
-                exit_free();
-                return EXIT_BUSY;
+        exit_free();
+        return EXIT_BUSY;
+    }
+
+    /* Read areas.bbs */
+    if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+        fglog("$ERROR: can't open %s", areafix_areasbbs());
+        ret = EXIT_ERROR;
+    } else if (optind >= argc) {
+        /* process packet files in directory */
+        dir_sortmode(DIR_SORTMTIME);
+        if (dir_open(in_dir, "*.pkt", TRUE) == ERROR) {
+            fglog("ERROR: can't open directory %s", in_dir);
+            ret = EXIT_ERROR;
+        } else {
+            for (pkt_name = dir_get(TRUE); pkt_name;
+                 pkt_name = dir_get(FALSE)) {
+                if (do_file(pkt_name) == ERROR) {
+                    ret = EXIT_ERROR;
+                    break;
+                }
+                if (must_exit) {
+                    ret = EXIT_CONTINUE;
+                    break;
+                }
             }
 
-        /* Read areas.bbs */
-        if (areasbbs_init(areafix_areasbbs()) == ERROR) {
-            if (l_flag)
-                unlock_program(PROGRAM);
-            exit_free();
-            return EXIT_ERROR;
+            dir_close();
         }
-
+    } else {
         /* Process packet files on command line */
         for (; optind < argc; optind++) {
             if (do_file(argv[optind]) == ERROR) {
@@ -591,16 +562,18 @@ int main(int argc, char **argv)
                 break;
             }
         }
+    }
 
-        /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
-            if (areasbbs_rewrite() == ERROR)
-                ret = EXIT_ERROR;
+    /* Rewrite areas.bbs */
+    if (ret == EXIT_OK && !n_flag)
+        if (areasbbs_rewrite() == ERROR)
+            ret = EXIT_ERROR;
 
-        /* Lock file */
-        if (l_flag)
-            unlock_program(PROGRAM);
-    }
+    unlock_path(bbslock);
+
+    /* Lock file */
+    if (l_flag)
+        unlock_program(PROGRAM);
 
     areafix_free();
     exit_free();
diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 60da890..c34a3d0 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -583,6 +583,7 @@ int main(int argc, char **argv)
     }
 
     if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+        unlock_path(bbslock);
         exit_free();
         return EX_OSFILE;
     }
diff --git a/src/areafix/pkttmpl.c b/src/areafix/pkttmpl.c
index 0ac1bd5..51693ec 100644
--- a/src/areafix/pkttmpl.c
+++ b/src/areafix/pkttmpl.c
@@ -352,14 +352,6 @@ int main(int argc, char **argv)
     ret = EXIT_OK;
 
     if (optind >= argc) {
-        /* process packet files in directory */
-        dir_sortmode(DIR_SORTMTIME);
-        if (dir_open(in_dir, "*.pkt", TRUE) == ERROR) {
-            fglog("$ERROR: can't open directory %s", in_dir);
-            exit_free();
-            return EX_OSERR;
-        }
-
         /* Lock file */
         if (l_flag)
             if (lock_program(PROGRAM, FALSE) == ERROR) {
@@ -368,6 +360,16 @@ int main(int argc, char **argv)
                 return EXIT_BUSY;
             }
 
+        /* process packet files in directory */
+        dir_sortmode(DIR_SORTMTIME);
+        if (dir_open(in_dir, "*.pkt", TRUE) == ERROR) {
+            fglog("$ERROR: can't open directory %s", in_dir);
+            if (l_flag)
+                unlock_program(PROGRAM);
+            exit_free();
+            return EX_OSERR;
+        }
+
         for (pkt_name = dir_get(TRUE); pkt_name; pkt_name = dir_get(FALSE)) {
             if (do_file(pkt_name) == ERROR) {
                 ret = EXIT_ERROR;
diff --git a/src/common/lock.c b/src/common/lock.c
index d8b8b0f..6fa0540 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -313,13 +313,8 @@ static int create_lockfile(char *name)
  */
 int lock_lockfile(char *name, int wait)
 {
-    short int wait_time = FALSE;
-    short int exists_lock = FALSE;
     int ret;
 
-    if (wait && wait != WAIT)
-        wait_time = TRUE;
-
     /* Create lock file */
     debug(7, "Creating lock file %s ...", name);
     do {
@@ -334,24 +329,22 @@ int lock_lockfile(char *name, int wait)
 
         case LOCKFILE_LOCKED:
             debug(7, "Lock exists %s", name);
-            exists_lock = TRUE;
             break;
 
         default:
             return ERROR;
         }
 
+        /* WAIT (less than 0) is to wait forever, NOWAIT not to wait */
+        if (wait == NOWAIT)
+            return ERROR;
         if (wait > 0) {
-            if (wait_time) {
-                sleep(1);
-                wait--;
-            } else
-                sleep(5);
-        }
+            sleep(1);
+            wait--;
+        } else
+            sleep(5);
     }
-    while (exists_lock && wait > 0);
-
-    return exists_lock ? ERROR : OK;
+    while (TRUE);
 }
 
 /*
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index b9646a1..f8747c9 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -133,7 +133,7 @@ void areasbbs_free(void);
 
 /* binkley.c */
 #define NOWAIT		0
-#define WAIT		1
+#define WAIT		-1
 
 #define CHECK_FILE	0
 #define CHECK_DIR	1
@@ -261,6 +261,7 @@ char *dir_search(char *, char *);
 int mkdir_r(char *, mode_t);
 
 /* file.c */
+char *bad_name(char *, size_t, char *);
 void rename_bad(char *);
 
 /* flo.c */
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index a6dc20a..7330db2 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -741,6 +741,10 @@ int do_repack(char *dir, char *wildcard, int repack_time)
     time_t now;
     char *pkt_name;
     char buf[MAXPATH];
+#ifdef DO_BSY_FILES
+    char bsy[MAXPATH];
+#endif
+    int ret = OK;
 
     if (repack_time != -1)
         now = time(NULL) - repack_time;
@@ -756,14 +760,14 @@ int do_repack(char *dir, char *wildcard, int repack_time)
     for (pkt_name = dir_get_mtime(now, TRUE); pkt_name;
          pkt_name = dir_get_mtime(now, FALSE)) {
 #ifdef DO_BSY_FILES
-        BUF_COPY(buf, pkt_name);
-        buf[strlen_zero(buf) - 3] = '\0';
-        BUF_APPEND(buf, "bsy");
+        BUF_COPY(bsy, pkt_name);
+        bsy[strlen_zero(bsy) - 3] = '\0';
+        BUF_APPEND(bsy, "bsy");
 
 #ifdef NFS_SAFE_LOCK_FILES
-        if (lock_lockfile_nfs(buf, NOWAIT, NULL) == ERROR)
+        if (lock_lockfile_nfs(bsy, NOWAIT, NULL) == ERROR)
 #else
-        if (lock_lockfile(buf, NOWAIT) == ERROR)
+        if (lock_lockfile(bsy, NOWAIT) == ERROR)
 #endif
             continue;
 #endif                          /* DO_BSY_FILES */
@@ -772,20 +776,25 @@ int do_repack(char *dir, char *wildcard, int repack_time)
                 TYPE_NETMAIL, FLAV_NORMAL, outpkt_sequencer());
 
         debug(5, "rename %s -> %s", pkt_name, buf);
-        rename(pkt_name, buf);
-
-        if (do_file(buf) == ERROR) {
-            dir_close();
+        if (rename(pkt_name, buf) == ERROR) {
+            fglog("$ERROR: can't rename %s to %s", pkt_name, buf);
+            ret = ERROR;
+        } else if (do_file(buf) == ERROR) {
             debug(3, "do_file(): error processing");
-            return ERROR;
-        }
-        if (unlink(buf)) {
-            debug(1, "$ERROR: can't unlink packet %s", buf);
+            ret = ERROR;
+        } else if (unlink(buf)) {
+            fglog("$ERROR: can't unlink packet %s", buf);
         }
+
+#ifdef DO_BSY_FILES
+        unlink(bsy);
+#endif
+        if (ret == ERROR)
+            break;
     }
     dir_close();
 
-    return OK;
+    return ret;
 }
 
 /*
@@ -1054,14 +1063,6 @@ int main(int argc, char **argv)
         if (g_flag)
             pattern[0] = g_flag;
 
-        /* process packet files in directory */
-        dir_sortmode(DIR_SORTMTIME);
-        if (dir_open(in_dir, pattern, TRUE) == ERROR) {
-            fglog("$ERROR: can't open directory %s", in_dir);
-            exit_free();
-            return EX_OSERR;
-        }
-
         /* Lock file */
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
@@ -1070,6 +1071,16 @@ int main(int argc, char **argv)
                 return EXIT_BUSY;
             }
 
+        /* process packet files in directory */
+        dir_sortmode(DIR_SORTMTIME);
+        if (dir_open(in_dir, pattern, TRUE) == ERROR) {
+            fglog("$ERROR: can't open directory %s", in_dir);
+            if (l_flag)
+                unlock_program(PROGRAM);
+            exit_free();
+            return EX_OSERR;
+        }
+
         repack_mode = FALSE;
 
         for (pkt_name = dir_get(TRUE); pkt_name; pkt_name = dir_get(FALSE))
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index d650c02..24d05cc 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2137,7 +2137,12 @@ int main(int argc, char **argv)
         exit_free();
         return EXIT_BUSY;
     }
-    areasbbs_init(areas_bbs);
+    if (areasbbs_init(areas_bbs) == ERROR) {
+        fglog("$ERROR: can't open %s", areas_bbs);
+        unlock_path(bbslock);
+        exit_free();
+        return EX_OSFILE;
+    }
     passwd_init();
 
     /* Install signal/exit handlers */
@@ -2164,6 +2169,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2174,10 +2180,9 @@ int main(int argc, char **argv)
                 ERROR) {
 
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2197,8 +2202,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         dir_close();
@@ -2211,6 +2216,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2220,11 +2226,9 @@ int main(int argc, char **argv)
             if (lock_program(cf_p_lock_history(), w_flag ? w_flag : NOWAIT) ==
                 ERROR) {
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
-
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2245,8 +2249,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         /* Lock file */
-- 
2.43.0


From b3c2e943e5b4e2584ca1c511ad8857dae709806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 62/86] fix: sequence restarted by concurrent first use or
 write errors, files overwritten when numbers or names repeat

---
 src/common/file.c      | 25 ++++++++++++++-
 src/common/mail.c      | 19 +++++++----
 src/common/outpkt.c    | 28 +++++++++++------
 src/common/packet.c    | 14 ++++++---
 src/common/sequencer.c | 71 +++++++++++++++++++++---------------------
 src/common/tick.c      |  9 ++++--
 src/gate/ftninpost.c   |  2 +-
 src/tick/ftntick.c     | 11 ++++---
 8 files changed, 115 insertions(+), 64 deletions(-)

diff --git a/src/common/file.c b/src/common/file.c
index e6b5f0b..8e891b4 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -31,6 +31,29 @@
 
 #include "fidogate.h"
 
+/*
+ * Make name for bad file: NAME.pkt -> NAME.bad, NAME.N.bad if there is a file
+ * with the same name already
+ */
+char *bad_name(char *bad, size_t len, char *name)
+{
+    char *p;
+    size_t n;
+    int i;
+
+    str_copy(bad, len - sizeof(".4294967295.bad"), name);
+    p = strrchr(bad, '.');
+    if (p == NULL || strchr(p, '/') || strlen(p) != 4)
+        p = bad + strlen(bad);
+    n = p - bad;
+
+    str_copy(bad + n, len - n, ".bad");
+    for (i = 1; check_access(bad, CHECK_FILE) != ERROR; i++)
+        str_printf(bad + n, len - n, ".%d.bad", i);
+
+    return bad;
+}
+
 /*
  * Rename file: NAME.pkt -> NAME.bad
  */
@@ -38,7 +61,7 @@ void rename_bad(char *name)
 {
     char bad[MAXPATH];
 
-    str_change_ext(bad, sizeof(bad), name, ".bad");
+    bad_name(bad, sizeof(bad), name);
 
     fglog("ERROR: bad packet renamed to %s", bad);
     if (rename(name, bad) == ERROR) {
diff --git a/src/common/mail.c b/src/common/mail.c
index 7f33454..235a38e 100644
--- a/src/common/mail.c
+++ b/src/common/mail.c
@@ -52,9 +52,13 @@ int mail_open(int sel)
     switch (sel) {
     case 'm':
     case 'M':
-        n = sequencer(cf_p_seq_mail());
-        str_printf(m_tmp, sizeof(m_tmp), "%s/%08ld.tmp", mail_dir, n);
-        str_printf(m_name, sizeof(m_name), "%s/%08ld.rfc", mail_dir, n);
+        /* The numbers may start again, don't overwrite older files */
+        do {
+            n = sequencer(cf_p_seq_mail());
+            str_printf(m_tmp, sizeof(m_tmp), "%s/%08ld.tmp", mail_dir, n);
+            str_printf(m_name, sizeof(m_name), "%s/%08ld.rfc", mail_dir, n);
+        } while (check_access(m_tmp, CHECK_FILE) != ERROR ||
+                 check_access(m_name, CHECK_FILE) != ERROR);
         m_file = fopen(m_tmp, W_MODE);
         if (!m_file) {
             fglog("$Can't create mail file %s", m_tmp);
@@ -64,9 +68,12 @@ int mail_open(int sel)
 
     case 'n':
     case 'N':
-        n = sequencer(cf_p_seq_news());
-        str_printf(n_tmp, sizeof(n_tmp), "%s/%08ld.tmp", news_dir, n);
-        str_printf(n_name, sizeof(n_name), "%s/%08ld.rfc", news_dir, n);
+        do {
+            n = sequencer(cf_p_seq_news());
+            str_printf(n_tmp, sizeof(n_tmp), "%s/%08ld.tmp", news_dir, n);
+            str_printf(n_name, sizeof(n_name), "%s/%08ld.rfc", news_dir, n);
+        } while (check_access(n_tmp, CHECK_FILE) != ERROR ||
+                 check_access(n_name, CHECK_FILE) != ERROR);
         n_file = fopen(n_tmp, W_MODE);
         if (!n_file) {
             fglog("$Can't create mail file %s", n_tmp);
diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index 7641bb6..ed93b2c 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -118,7 +118,7 @@ long outpkt_sequencer(void)
  */
 void outpkt_names(OutPkt * p, int grade, int type, int flav, int bad)
 {
-    long n = outpkt_sequencer();
+    long n;
 
     /* Set fields */
     p->flav = flav;
@@ -127,14 +127,24 @@ void outpkt_names(OutPkt * p, int grade, int type, int flav, int bad)
     p->bad = bad;
 
     /* Names */
-    outpkt_outputname(buffer,
-                      bad ? pkt_get_baddir() : pkt_get_outdir(),
-                      grade, type, flav, n, "pkt");
-    p->outname = strsave(buffer);
-    outpkt_outputname(buffer,
-                      bad ? pkt_get_baddir() : pkt_get_outdir(),
-                      grade, type, flav, n, "tmp");
-    p->tmpname = strsave(buffer);
+    p->outname = NULL;
+    p->tmpname = NULL;
+    /* The numbers wrap or start again, don't overwrite older packets */
+    do {
+        xfree(p->outname);
+        xfree(p->tmpname);
+
+        n = outpkt_sequencer();
+        outpkt_outputname(buffer,
+                          bad ? pkt_get_baddir() : pkt_get_outdir(),
+                          grade, type, flav, n, "pkt");
+        p->outname = strsave(buffer);
+        outpkt_outputname(buffer,
+                          bad ? pkt_get_baddir() : pkt_get_outdir(),
+                          grade, type, flav, n, "tmp");
+        p->tmpname = strsave(buffer);
+    } while (check_access(p->outname, CHECK_FILE) != ERROR ||
+             check_access(p->tmpname, CHECK_FILE) != ERROR);
 }
 
 /*
diff --git a/src/common/packet.c b/src/common/packet.c
index e993a95..ff4d810 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -113,11 +113,15 @@ static char *pkt_newname(char *name)
         BUF_COPY(packet_name, name);
         BUF_COPY(packet_tmp, name);
     } else {
-        long n = sequencer(cf_p_seq_pkt());
-        str_printf(packet_name, sizeof(packet_name),
-                   "%s/%08ld.pkt", packet_dir, n);
-        str_printf(packet_tmp, sizeof(packet_tmp),
-                   "%s/%08ld.tmp", packet_dir, n);
+        /* The numbers may start again, don't overwrite older packets */
+        do {
+            long n = sequencer(cf_p_seq_pkt());
+            str_printf(packet_name, sizeof(packet_name),
+                       "%s/%08ld.pkt", packet_dir, n);
+            str_printf(packet_tmp, sizeof(packet_tmp),
+                       "%s/%08ld.tmp", packet_dir, n);
+        } while (check_access(packet_name, CHECK_FILE) != ERROR ||
+                 check_access(packet_tmp, CHECK_FILE) != ERROR);
     }
 
     return packet_name;
diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index 22ee9d6..a7d88a3 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -31,6 +31,8 @@
 
 #include "fidogate.h"
 
+#include <limits.h>
+
 /*
  * Sequencer: read number from file and increment it
  */
@@ -42,53 +44,52 @@ long sequencer(char *seqname)
 long sequencer_nx(char *seqname, int err_abort)
 {
     char filename[MAXPATH];
+    char buf[64], *p;
     FILE *fp;
-    long seqn;
+    long seqn = 0;
+    int fd, err;
 
-    /* Open file, create if necessary */
+    /* Open file, create if necessary, never truncate the one of others */
     BUF_EXPAND(filename, seqname);
-    if ((fp = fopen(filename, RP_MODE)) == NULL)
-        if (errno == ENOENT) {
-            if (!(fp = fopen(filename, WP_MODE))) {
-                fp = fopen(cf_p_seq_pack(), RP_MODE);
-                if (fp == NULL) {
-                    if (errno == ENOENT) {
-                        mkdir(cf_p_seq_pack(), DIR_MODE);
-                        fp = fopen(filename, WP_MODE);
-                    } else
-                        return ERROR;
-                } else {
-                    fclose(fp);
-                    return ERROR;
-                }
-            }
-        }
-
-    if (fp == NULL) {
-        if (err_abort) {
-            fglog("$ERROR: can't access sequencer file %s", filename);
-            exit(EX_OSFILE);
-        } else
-            return ERROR;
+    fd = open(filename, O_RDWR | O_CREAT, 0666);
+    if (fd == -1 && errno == ENOENT && (p = strrchr(filename, '/'))) {
+        /* No directory yet */
+        *p = '\0';
+        mkdir(filename, DIR_MODE);
+        *p = '/';
+        fd = open(filename, O_RDWR | O_CREAT, 0666);
     }
 
+    fp = fd == -1 ? NULL : fdopen(fd, RP_MODE);
+    if (fp == NULL)
+        goto error;
+
     /* Lock file, get number and increment it */
-    lock_file(fp);
+    if (lock_file(fp) != OK)
+        goto error;
 
-    /* filename[] is also used as a buffer for reading the seq value */
-    if (fgets(filename, sizeof(filename), fp))
-        seqn = atol(filename);
-    else
+    if (fgets(buf, sizeof(buf), fp))
+        seqn = atol(buf);
+    err = ferror(fp);
+    if (seqn < 0 || seqn == LONG_MAX)
         seqn = 0;
     seqn++;
-    if (seqn < 0)
-        seqn = 0;
 
     rewind(fp);
     fprintf(fp, "%ld\n", seqn);
-    rewind(fp);
 
-    fclose(fp);
+    /* The number isn't ours, if others don't see it is taken */
+    err |= ferror(fp);
+    err |= fclose(fp);
+    fp = NULL;
+    if (!err)
+        return seqn;
 
-    return seqn;
+error:
+    fglog("$ERROR: can't access sequencer file %s", filename);
+    if (fp)
+        fclose(fp);
+    if (err_abort)
+        exit(EX_OSFILE);
+    return ERROR;
 }
diff --git a/src/common/tick.c b/src/common/tick.c
index b913141..f71753c 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -311,6 +311,7 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     char *flav;
     Routing *r;
     LNode *p;
+    size_t len;
 #ifdef FECHO_PASSTHROUGHT
     char box_name[MAXPATH];
     int errlvl;
@@ -451,8 +452,12 @@ int tick_send(Tick * tic, Node * node, char *name, mode_t mode)
     /*
      * Create TIC
      */
-    str_printf(buffer + strlen(buffer), sizeof(buffer) - strlen(buffer),
-               "/tk%06ld.tic", sequencer(cf_p_seq_tick()) % 1000000);
+    len = strlen(buffer);
+    /* The numbers wrap, don't overwrite older files */
+    do
+        str_printf(buffer + len, sizeof(buffer) - len,
+                   "/tk%06ld.tic", sequencer(cf_p_seq_tick()) % 1000000);
+    while (check_access(buffer, CHECK_FILE) != ERROR);
     debug(4, "creating %s", buffer);
     if (tick_put(tic, buffer, mode) == ERROR) {
         fglog("ERROR: tick_put() return -1");
diff --git a/src/gate/ftninpost.c b/src/gate/ftninpost.c
index e4c30ab..9d573e3 100644
--- a/src/gate/ftninpost.c
+++ b/src/gate/ftninpost.c
@@ -272,7 +272,7 @@ int do_dir(char *cdir, int mode)
             if ((fp == NULL) || (ret != OK)) {
                 char bad[MAXPATH];
                 fglog("$WARNING: %s returned non-zero status", p);
-                str_change_ext(bad, sizeof(bad), rfc_file, ".bad");
+                bad_name(bad, sizeof(bad), rfc_file);
                 fglog("ERROR: bad rfcbatch renamed to %s", bad);
                 rename(rfc_file, bad);
             } else {
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 67e12f4..c68efcd 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -89,7 +89,7 @@ short int ignore_soft_cr = FALSE;
 
 static bool no_tic_history;
 
-static bool ftntick_is_dupe(Tick *tic, bool w_flag)
+static bool ftntick_is_dupe(Tick *tic, int w_flag)
 {
     bool ret = false;
 
@@ -97,6 +97,7 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
         ERROR) {
         fglog("$ERROR: can't create lock file %s/%s", cf_p_lockdir(),
               cf_p_lock_history());
+        unlock_program(PROGRAM);
         exit_free();
         exit(EXIT_BUSY);
     }
@@ -120,7 +121,7 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
     return ret;
 }
 
-static int ftntick_write_history(Tick *tic, bool w_flag)
+static int ftntick_write_history(Tick *tic, int w_flag)
 {
     int ret = 0;
 
@@ -128,8 +129,7 @@ static int ftntick_write_history(Tick *tic, bool w_flag)
         ERROR) {
         fglog("$ERROR: can't create lock file %s/%s", cf_p_lockdir(),
               cf_p_lock_history());
-        exit_free();
-        exit(EXIT_BUSY);
+        return ERROR;
     }
 
     hi_init_tic_history();
@@ -249,6 +249,7 @@ int do_tic(int w_flag)
 
         BUF_COPY2(bbslock, areas_bbs, ".lock");
         if (lock_path(bbslock, w_flag ? w_flag : WAIT) == ERROR) {
+            unlock_program(PROGRAM);
             exit_free();
             exit(EXIT_BUSY);
         }
@@ -269,7 +270,7 @@ int do_tic(int w_flag)
             /*
              * Error: rename .tic -> .bad
              */
-            str_change_ext(buf, sizeof(buf), name, "bad");
+            bad_name(buf, sizeof(buf), name);
             rename(name, buf);
             fglog("%s: renamed to %s", name, buf);
         } else {
-- 
2.43.0


From af1fa13156bf99969f95da76b153c6a596412de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 63/86] fix: lock just taken over by another process removed as
 stale, directory created at the same time was an error, failed answer mail
 ended with exit code 0

---
 src/areafix/mailer.c |  9 ++++++++-
 src/common/binkley.c |  4 ++--
 src/common/lock.c    | 10 ++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/areafix/mailer.c b/src/areafix/mailer.c
index 58a8a24..2a8bd53 100644
--- a/src/areafix/mailer.c
+++ b/src/areafix/mailer.c
@@ -50,5 +50,12 @@ FILE *mailer_open(char *to, int forward, char *robotname, char *password)
  */
 int mailer_close(FILE * fp)
 {
-    return pclose(fp);
+    int err = ferror(fp);
+
+    /* The wait status isn't an exit code, 127 << 8 would become 0 */
+    if (pclose(fp) != 0 || err) {
+        fglog("ERROR: sending mail failed");
+        return EX_OSERR;
+    }
+    return EX_OK;
 }
diff --git a/src/common/binkley.c b/src/common/binkley.c
index c99d607..22f2ec3 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -422,7 +422,7 @@ int bink_mkdir(Node * node)
     rest = sizeof(buf) - strlen(buf);
 
     if (check_access(buf, CHECK_DIR) == ERROR) {
-        if (mkdir(buf, DIR_MODE) == -1) {
+        if (mkdir(buf, DIR_MODE) == -1 && errno != EEXIST) {
             fglog("$WARNING: can't create dir %s", buf);
             return ERROR;
         }
@@ -436,7 +436,7 @@ int bink_mkdir(Node * node)
         if (node->point > 0) {
             str_printf(base, rest, "/%04x%04x.pnt", node->net, node->node);
             if (check_access(buf, CHECK_DIR) == ERROR) {
-                if (mkdir(buf, DIR_MODE) == -1) {
+                if (mkdir(buf, DIR_MODE) == -1 && errno != EEXIST) {
                     fglog("$WARNING: can't create dir %s", buf);
                     return ERROR;
                 }
diff --git a/src/common/lock.c b/src/common/lock.c
index 6fa0540..98f1578 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -87,6 +87,16 @@ int check_stale_lock(char *name)
         return LOCKFILE_LOCKED;
     }
 
+    /*
+     * The process may just have released its lock and ended, and another one
+     * may have created a new lock file. A lock file of a process no longer
+     * running can be removed only by the one that has it locked.
+     */
+    if (!file_is_same(fp, name)) {
+        fclose(fp);
+        return LOCKFILE_UNLOCKED;
+    }
+
     fglog("$WARNING: stale lock file %s (pid = %d) found", name, pid);
     if (unlink(name) != 0) {
         debug(7, "Deleteting stale lock file %s failed.", name);
-- 
2.43.0


From 36f761049dd1970133172d77213ecfaca59b7257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 64/86] fix: ftnpack: packet moved or archived overwrote a
 waiting one of the same name

---
 src/toss/ftnpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index fdc1c3e..f3dabea 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -435,6 +435,12 @@ char *packing_pkt_name(char *dir, char *name)
         p++;
     BUF_COPY3(buf, (dir ? dir : out_dir), "/", p);
 
+    /* Don't overwrite an older packet, names may repeat */
+    while (!streq(buf, name) && check_access(buf, CHECK_FILE) != ERROR)
+        str_printf(buf, sizeof(buf), "%s/%.3s%05lx.pkt",
+                   (dir ? dir : out_dir), p,
+                   sequencer(cf_p_seq_pack()) & 0xfffffL);
+
     return buf;
 }
 
-- 
2.43.0


From 3a284ddc2f03ea1e12fb5540a55395824d40d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 65/86] fix: mail was lost or duplicated when a program was
 killed or a disk full: inputs removed before the outputs were complete, write
 errors ignored

---
 src/common/bounce.c      |  10 +-
 src/common/histdb.c      | 177 +++++++++++++--------
 src/common/mail.c        |  47 +++---
 src/common/outpkt.c      | 136 +++++++++++++----
 src/common/packet.c      | 323 ++++++++++++++++++++++++---------------
 src/include/prototypes.h |  17 ++-
 src/toss/ftn2ftn.c       |   7 +-
 src/toss/ftnpack.c       |  96 ++++++++----
 src/toss/ftnroute.c      |  82 +++++++---
 src/toss/ftntoss.c       | 130 ++++++++++++----
 10 files changed, 685 insertions(+), 340 deletions(-)

diff --git a/src/common/bounce.c b/src/common/bounce.c
index 39578eb..5c06cdf 100644
--- a/src/common/bounce.c
+++ b/src/common/bounce.c
@@ -144,8 +144,8 @@ int bounce_header(char *to)
 /*
  * Bounce mail
  */
-void bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
-                 Textlist * body, RFCHeader *h)
+int bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
+                Textlist * body, RFCHeader *h)
 {
     char *to;
     FILE *in;
@@ -153,7 +153,7 @@ void bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
     to = s_rfcaddr_to_asc(addr_from, TRUE);
 
     if (bounce_header(to) == ERROR)
-        return;
+        return ERROR;
 
     BUF_COPY3(buffer, cf_p_configdir(), "/bounce.", reason);
 
@@ -161,7 +161,5 @@ void bounce_mail(char *reason, RFCAddr * addr_from, Message * msg, char *rfc_to,
     print_file_subst(in, mail_file('m'), msg, rfc_to, body, h);
     fclose(in);
 
-    mail_close('m');
-
-    return;
+    return mail_close('m');
 }
diff --git a/src/common/histdb.c b/src/common/histdb.c
index 05b2c0a..8cbb30b 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -36,6 +36,7 @@
  * History file
  */
 static FILE *hi_file = NULL;
+static long hi_synced = 0;      /* End of the records safely in the history */
 short int hi_init(char *);
 
 /*
@@ -53,25 +54,22 @@ short int hi_init_dbc()
     return OK;
 }
 
-void hi_init_tic_history(void)
+short int hi_init_tic_history(void)
 {
     char db_name[MAXPATH];
 
     BUF_EXPAND(db_name, cf_p_tic_history());
 
-    if (hi_init(db_name) == ERROR) {
-        return;
-    }
-    return;
+    return hi_init(db_name);
 }
 
-void hi_init_history(void)
+short int hi_init_history(void)
 {
     char db_name[MAXPATH];
 
     BUF_EXPAND(db_name, cf_p_history());
 
-    hi_init(db_name);
+    return hi_init(db_name);
 }
 
 /*
@@ -91,6 +89,7 @@ short int hi_init(char *his_file)
             return ERROR;
         } else
             debug(9, "creating MSGID history %s", buffer);
+        fclose(fp);
     }
     BUF_EXPAND(buffer, his_file);
     BUF_APPEND(buffer, ".pag");
@@ -101,42 +100,123 @@ short int hi_init(char *his_file)
             return ERROR;
         } else
             fglog("creating MSGID history %s", buffer);
+        fclose(fp);
     }
     /* Open the history text file */
     BUF_EXPAND(buffer, his_file);
     if ((hi_file = fopen(buffer, A_MODE)) == NULL) {
         fglog("$ERROR: open MSGID history %s failed", buffer);
-        if (check_access(buffer, CHECK_FILE) == ERROR) {
-            fglog("$ERROR: Premission denied %s", buffer);
-            return ERROR;
-        }
+        return ERROR;
     }
     /* Open the DBZ file */
     dbzincore(1);
     /**dbzwritethrough(1);**/
     if (dbminit(buffer) == -1) {
         fglog("$ERROR: dbminit %s failed", buffer);
+        fclose(hi_file);
+        hi_file = NULL;
         return ERROR;
     }
+    hi_synced = lseek(fileno(hi_file), 0L, SEEK_END);
     return OK;
 }
 
+/*
+ * Append record to the history text file, completely or not at all.
+ * Returns its offset or ERROR.
+ */
+static long hi_append(char *rec)
+{
+    size_t len, done;
+    ssize_t n;
+    long offset;
+    int fd, err;
+
+    if (!hi_file) {
+        fglog("$ERROR: can't open MSGID history file");
+        return ERROR;
+    }
+
+    fd = fileno(hi_file);
+    /* Get offset in history text file */
+    if ((offset = lseek(fd, 0L, SEEK_END)) == ERROR) {
+        fglog("$ERROR: seek MSGID history failed");
+        return ERROR;
+    }
+
+    len = strlen(rec);
+    for (done = 0; done < len; done += n) {
+        n = write(fd, rec + done, len - done);
+        if (n == ERROR && errno == EINTR) {
+            n = 0;
+        } else if (n == ERROR) {
+            err = errno;
+            if (done > 0 && ftruncate(fd, offset) == ERROR)
+                fglog("$ERROR: truncate MSGID history failed");
+            errno = err;
+            fglog("$ERROR: write to MSGID history failed");
+            return ERROR;
+        }
+    }
+
+    return offset;
+}
+
+/*
+ * Make sure that the records written are in the MSGID history
+ */
+int hi_sync(void)
+{
+    if (!hi_file)
+        return OK;
+
+    if (dbzsync()) {
+        fglog("$ERROR: dbzsync MSGID history failed");
+        return ERROR;
+    }
+    hi_synced = lseek(fileno(hi_file), 0L, SEEK_END);
+
+    return OK;
+}
+
+/*
+ * Close MSGID history, dropping the records written since the last hi_sync()
+ */
+void hi_discard(void)
+{
+    if (hi_file) {
+        dbzcancel();
+        if (hi_synced != ERROR && ftruncate(fileno(hi_file), hi_synced) == ERROR)
+            fglog("$ERROR: truncate MSGID history failed");
+        hi_close();
+    }
+}
+
 /*
  * Close MSGID history
  */
-void hi_close(void)
+int hi_close(void)
 {
+    int ret = OK;
 
     if (hi_file) {
-        if (fclose(hi_file) == ERROR)
+        if (fclose(hi_file) == ERROR) {
             fglog("$ERROR: close MSGID history failed");
-        if (dbzsync())
+            ret = ERROR;
+        }
+        if (dbzsync()) {
             fglog("$ERROR: dbzsync MSGID history failed");
-        if (dbmclose() < 0)
+            ret = ERROR;
+        }
+        if (dbmclose() < 0) {
             fglog("$ERROR: dbmclose MSGID history failed");
+            ret = ERROR;
+        }
 
         hi_file = NULL;
     }
+
+    return ret;
 }
 
 /*
@@ -145,33 +225,20 @@ void hi_close(void)
 short int hi_write_dbc(char *rfc_msgid, char *fido_msgid, short int dont_flush)
 {
     long offset;
-    int ret;
+    char *rec;
     datum key, val;
     TIMEINFO ti;
 
     GetTimeInfo(&ti);
-    if (hi_file) {
-        /* Get offset in history text file */
-        if ((offset = ftell(hi_file)) == ERROR) {
-            fglog("$ERROR: ftell DBC MSGID history failed");
-            return ERROR;
-        }
-    } else {
-        fglog("$ERROR: can't open MSGID history file");
-        return ERROR;
-    }
-
     /* Write MSGID line to history text file */
     if (strchr(fido_msgid, ' '))
         fido_msgid = strrchr(fido_msgid, ' ') + 1;
+    rec = s_printf("%s\t%s\t%ld\n", fido_msgid, rfc_msgid, (long)ti.time);
+    offset = hi_append(rec);
+    if (offset == ERROR)
+        return ERROR;
     debug(7, "dbc history: offset=%ld: %s %s %ld", offset, fido_msgid,
           rfc_msgid, (long)ti.time);
-    ret =
-        fprintf(hi_file, "%s\t%s\t%ld\n", fido_msgid, rfc_msgid, (long)ti.time);
-    if (ret == ERROR || (!dont_flush && fflush(hi_file) == ERROR)) {
-        fglog("$ERROR: write to DBC MSGID history failed");
-        return ERROR;
-    }
 
     /* Write database record */
     key.dptr = fido_msgid;      /* Key */
@@ -194,27 +261,15 @@ short int hi_write_dbc(char *rfc_msgid, char *fido_msgid, short int dont_flush)
 short int hi_write_t(time_t t, time_t msgdate, char *msgid)
 {
     long offset;
-    int ret;
+    char *rec;
     datum key, val;
 
-    if (hi_file) {
-        /* Get offset in history text file */
-        if ((offset = ftell(hi_file)) == ERROR) {
-            fglog("$ERROR: ftell MSGID history failed");
-            return ERROR;
-        }
-    } else {
-        fglog("$ERROR: can't open MSGID history file");
-        return ERROR;
-    }
-
     /* Write MSGID line to history text file */
-    debug(7, "history: offset=%ld: %s %ld", offset, msgid, (long)t);
-    ret = fprintf(hi_file, "%s\t%ld\n", msgid, (long)t);
-    if (ret == ERROR || fflush(hi_file) == ERROR) {
-        fglog("$ERROR: write to MSGID history failed");
+    rec = s_printf("%s\t%ld\n", msgid, (long)t);
+    offset = hi_append(rec);
+    if (offset == ERROR)
         return ERROR;
-    }
+    debug(7, "history: offset=%ld: %s %ld", offset, msgid, (long)t);
 
     /* Write database record */
     key.dptr = msgid;           /* Key */
@@ -247,27 +302,15 @@ short int hi_write(time_t msgdate, char *msgid)
 short int hi_write_avail(char *area, char *desc)
 {
     long offset;
-    int ret;
+    char *rec;
     datum key, val;
 
-    if (hi_file) {
-        /* Get offset in history text file */
-        if ((offset = ftell(hi_file)) == ERROR) {
-            fglog("$ERROR: ftell MSGID history failed");
-            return ERROR;
-        }
-    } else {
-        fglog("$ERROR: can't open MSGID history file");
-        return ERROR;
-    }
-
     /* Write MSGID line to history text file */
-    debug(7, "history: offset=%ld: %s %s", offset, area, desc);
-    ret = fprintf(hi_file, "%s\t%s\n", area, desc);
-    if (ret == ERROR || fflush(hi_file) == ERROR) {
-        fglog("$ERROR: write to MSGID history failed");
+    rec = s_printf("%s\t%s\n", area, desc);
+    offset = hi_append(rec);
+    if (offset == ERROR)
         return ERROR;
-    }
+    debug(7, "history: offset=%ld: %s %s", offset, area, desc);
 
     /* Write database record */
     key.dptr = area;            /* Key */
diff --git a/src/common/mail.c b/src/common/mail.c
index 235a38e..f9eac46 100644
--- a/src/common/mail.c
+++ b/src/common/mail.c
@@ -109,34 +109,43 @@ FILE *mail_file(int sel)
 }
 
 /*
- * Close mail file
+ * Close mail file, an incomplete one is removed
  */
-void mail_close(int sel)
+static int mail_finish(FILE ** fp, char *tmp, char *name)
 {
+    int ret = OK;
+
+    if (ferror(*fp))
+        ret = ERROR;
+    if (fclose(*fp) == EOF)
+        ret = ERROR;
+    if (ret == ERROR)
+        fglog("$ERROR: writing mail file %s failed", tmp);
+    else if (rename(tmp, name) == ERROR) {
+        fglog("$ERROR: can't rename mail file %s to %s", tmp, name);
+        ret = ERROR;
+    }
+    if (ret == ERROR && unlink(tmp) == ERROR)
+        fglog("$ERROR: can't remove mail file %s", tmp);
+
+    tmp[0] = 0;
+    name[0] = 0;
+    *fp = NULL;
 
+    return ret;
+}
+
+int mail_close(int sel)
+{
     switch (sel) {
     case 'm':
     case 'M':
-        fclose(m_file);
-        if (rename(m_tmp, m_name) == ERROR)
-            fglog("$Can't rename mail file %s to %s", m_tmp, m_name);
-
-        m_tmp[0] = 0;
-        m_name[0] = 0;
-        m_file = NULL;
-        break;
+        return mail_finish(&m_file, m_tmp, m_name);
 
     case 'n':
     case 'N':
-        fclose(n_file);
-        if (rename(n_tmp, n_name) == ERROR)
-            fglog("$Can't rename mail file %s to %s", n_tmp, n_name);
-
-        n_tmp[0] = 0;
-        n_name[0] = 0;
-        n_file = NULL;
-        break;
+        return mail_finish(&n_file, n_tmp, n_name);
     }
 
-    return;
+    return OK;
 }
diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index ed93b2c..4afb5d6 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -54,6 +54,7 @@ static OutPkt *outpkt_last = NULL;
 
 static int outpkt_maxopen = MAXOPENFILES;   /* Max # */
 static int outpkt_nopen = 0;    /* Currently opened files */
+static int outpkt_failed = FALSE;   /* Writing some packet failed */
 
 /*
  * Prototypes
@@ -61,6 +62,7 @@ static int outpkt_nopen = 0;    /* Currently opened files */
 static OutPkt *outpkt_new(Node *, Node *);
 static void outpkt_names(OutPkt *, int, int, int, int);
 static FILE *outpkt_fopen(char *, char *);
+static int outpkt_fclose(OutPkt *);
 static int outpkt_close_ln(void);
 
 /*
@@ -155,6 +157,28 @@ void outpkt_set_maxopen(int n)
     outpkt_maxopen = n;
 }
 
+/*
+ * Close packet file, remember that it is incomplete on errors
+ */
+static int outpkt_fclose(OutPkt * p)
+{
+    int ret = OK;
+
+    if (ferror(p->fp))
+        ret = ERROR;
+    if (fclose(p->fp) == ERROR)
+        ret = ERROR;
+    if (ret == ERROR) {
+        fglog("$ERROR: writing packet file %s failed", p->tmpname);
+        outpkt_failed = TRUE;
+    }
+
+    outpkt_nopen--;
+    p->fp = NULL;
+
+    return ret;
+}
+
 /*
  * Close packet file with least number of messages
  */
@@ -178,10 +202,7 @@ static int outpkt_close_ln(void)
     /* Close it */
     if (pmin) {
         debug(3, "Close %s", pmin->tmpname);
-        if (fclose(pmin->fp) == ERROR)
-            ret = ERROR;
-        outpkt_nopen--;
-        pmin->fp = NULL;
+        ret = outpkt_fclose(pmin);
     } else
         ret = ERROR;
 
@@ -264,8 +285,8 @@ FILE *outpkt_open(Node * from, Node * to,
     /* Rest is filled in by pkt_put_hdr() */
     if (pkt_put_hdr(p->fp, &pkt) == ERROR) {
         fglog("$Can't write to packet file %s", p->tmpname);
-        fclose(p->fp);
-        p->fp = NULL;
+        outpkt_failed = TRUE;
+        outpkt_fclose(p);
         return NULL;
     }
 
@@ -274,47 +295,84 @@ FILE *outpkt_open(Node * from, Node * to,
 }
 
 /*
- * Close all output packets
+ * Forget all output packets, remove those not finished
  */
-void outpkt_close(void)
+static void outpkt_free(void)
 {
     OutPkt *p, *pn;
 
-    for (p = outpkt_first; p;) {
+    for (p = outpkt_first; p; p = pn) {
         pn = p->next;
 
-        /* Reopen, if already closed */
-        if (!p->fp)
-            p->fp = outpkt_fopen(p->tmpname, A_MODE);
-
-        if (p->fp) {
-            /* Terminating 0-word */
-            pkt_put_int16(p->fp, 0);
-            debug(3, "Close %s", p->tmpname);
-            if (fclose(p->fp) == ERROR)
-                debug(3, "Close failed");
-
-            outpkt_nopen--;
-
-            /* Rename */
-            debug(3, "Rename %s -> %s", p->tmpname, p->outname);
-            if (rename(p->tmpname, p->outname) == ERROR)
-                debug(3, "Rename failed");
-        }
+        if (p->fp)
+            outpkt_fclose(p);
+        if (p->tmpname[0] && unlink(p->tmpname) == ERROR && errno != ENOENT)
+            fglog("$ERROR: can't remove packet file %s", p->tmpname);
 
         /* Delete OutPkt entry */
         xfree(p->tmpname);
         xfree(p->outname);
         xfree(p);
-
-        p = pn;
     }
 
     outpkt_first = NULL;
     outpkt_last = NULL;
     outpkt_nopen = 0;           /* Just to be sure ... */
+    outpkt_failed = FALSE;
+}
 
-    return;
+/*
+ * Give up all output packets
+ */
+void outpkt_abort(void)
+{
+    outpkt_free();
+}
+
+/*
+ * Close all output packets
+ *
+ * Packets get their final names when all of them have been written
+ * completely, otherwise there are no packets at all and ERROR is returned.
+ */
+int outpkt_close(void)
+{
+    OutPkt *p;
+    int ret = OK;
+
+    for (p = outpkt_first; p && !outpkt_failed; p = p->next) {
+        /* Reopen, if already closed */
+        if (!p->fp)
+            p->fp = outpkt_fopen(p->tmpname, A_MODE);
+        if (!p->fp) {
+            fglog("$ERROR: can't reopen packet file %s", p->tmpname);
+            outpkt_failed = TRUE;
+            break;
+        }
+
+        /* Terminating 0-word */
+        pkt_put_int16(p->fp, 0);
+        debug(3, "Close %s", p->tmpname);
+        outpkt_fclose(p);
+    }
+
+    if (outpkt_failed)
+        ret = ERROR;
+
+    for (p = outpkt_first; p && ret == OK; p = p->next) {
+        debug(3, "Rename %s -> %s", p->tmpname, p->outname);
+        if (rename(p->tmpname, p->outname) == ERROR) {
+            fglog("$ERROR: can't rename packet file %s to %s",
+                  p->tmpname, p->outname);
+            ret = ERROR;
+        } else {
+            p->tmpname[0] = '\0';
+        }
+    }
+
+    outpkt_free();
+
+    return ret;
 }
 
 /*
@@ -322,6 +380,20 @@ void outpkt_close(void)
  */
 int outpkt_netmail(Message * msg, Textlist * tl, char *program, char *origin,
                    char *tearline)
+{
+    if (outpkt_put_netmail(msg, tl, program, origin, tearline) == ERROR) {
+        outpkt_abort();
+        return ERROR;
+    }
+
+    return outpkt_close();
+}
+
+/*
+ * Write netmail message to output packet, leaving it open
+ */
+int outpkt_put_netmail(Message * msg, Textlist * tl, char *program,
+                       char *origin, char *tearline)
 {
     FILE *fp;
 
@@ -364,7 +436,5 @@ int outpkt_netmail(Message * msg, Textlist * tl, char *program, char *origin,
     /* Terminating 0-byte */
     putc(0, fp);
 
-    outpkt_close();
-
-    return OK;
+    return ferror(fp) ? ERROR : OK;
 }
diff --git a/src/common/packet.c b/src/common/packet.c
index ff4d810..fba36b3 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -39,6 +39,7 @@ static char packet_bad[MAXPATH];
 static char packet_name[MAXPATH];
 static char packet_tmp[MAXPATH];
 static FILE *packet_file = NULL;
+static FILE *packet_out = NULL; /* Locked OUT packet to be replaced */
 static Node packet_node = { -1, -1, -1, -1, "" };
 
 static int packet_bsy = FALSE;
@@ -109,9 +110,14 @@ int pkt_isopen(void)
  */
 static char *pkt_newname(char *name)
 {
+    struct stat st;
+
     if (name) {
         BUF_COPY(packet_name, name);
         BUF_COPY(packet_tmp, name);
+        /* Packets in devices, pipes, ... can't be replaced when done */
+        if (stat(name, &st) == -1 || S_ISREG(st.st_mode))
+            BUF_APPEND(packet_tmp, ".tmp");
     } else {
         /* The numbers may start again, don't overwrite older packets */
         do {
@@ -132,13 +138,93 @@ static char *pkt_newname(char *name)
  */
 #define MAX_COUNT 50
 
+/*
+ * Open and lock file, optionally creating it
+ */
+static FILE *pkt_open_locked(char *name, int create)
+{
+    FILE *fp;
+    int count, err;
+
+    for (count = 0; count < MAX_COUNT; count++) {
+        if (create) {
+            /* Open for append, creating empty file if necessary */
+            debug(4, "Open %s in append mode", name);
+            fp = fopen(name, A_MODE);
+            if (fp == NULL) {
+                /* If this failed we're out of luck ... */
+                fglog("$ERROR: can't open %s", name);
+                return NULL;
+            }
+            fclose(fp);
+        }
+
+        /* Reopen in read/write mode */
+        debug(4, "Reopen %s in read/write mode", name);
+        fp = fopen(name, RP_MODE);
+        if (fp == NULL) {
+            if (errno == ENOENT && create) {
+                /* File deleted in the meantime - retry */
+                debug(4, "%s deleted, retrying", name);
+                continue;
+            }
+            err = errno;
+            if (err != ENOENT)
+                fglog("$ERROR: can't open %s", name);
+            errno = err;
+            return NULL;
+        }
+
+        /* Lock it, waiting for lock to be granted */
+        debug(4, "Locking %s", name);
+        if (lock_file(fp)) {
+            /* Lock error ... */
+            fglog("$ERROR: can't lock %s", name);
+            fclose(fp);
+            errno = EACCES;
+            return NULL;
+        }
+
+        /* Lock succeeded, but the file may have been deleted */
+        if (file_is_same(fp, name))
+            return fp;
+
+        debug(4, "%s deleted, retrying", name);
+        fclose(fp);
+    }
+
+    fglog("ERROR: can't open and lock %s, giving up", name);
+    errno = EACCES;
+    return NULL;
+}
+
+/*
+ * Copy the first bytes of a file
+ */
+static int pkt_copy(FILE * in, FILE * out, long n)
+{
+    char buf[4096];
+    size_t len;
+
+    rewind(in);
+    while (n > 0) {
+        len = n < (long)sizeof(buf) ? n : sizeof(buf);
+        if (fread(buf, 1, len, in) != len)
+            return ERROR;
+        if (fwrite(buf, 1, len, out) != len)
+            return ERROR;
+        n -= len;
+    }
+
+    return OK;
+}
+
 static FILE *pkt_open_node(Node * node, char *flav, int bsy)
 {
     char *out;
     FILE *fp;
     long pos;
     Packet pkt;
-    int count;
 
     /* Name of .OUT file */
     out = bink_find_out(node, flav);
@@ -154,88 +240,43 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
             return NULL;
 
     pkt_newname(out);
+    BUF_COPY2(packet_tmp, out, ".tmp");
 
     /*
-     * Open and lock OUT packet
+     * The new contents is written to a temporary file, so that nobody ever
+     * sees an incomplete packet. Open and lock it and the OUT packet, if
+     * there is one.
      */
-    count = 0;
-    do {
-        count++;
-        /*
-         * Check count and give up, if too many retries
-         */
-        if (count >= MAX_COUNT) {
-            fp = NULL;
-            break;
-        }
-
-        /* Open OUT file for append, creating empty one if necessary */
-        debug(4, "Open OUT file in append mode");
-        fp = fopen(out, A_MODE);
-        if (fp == NULL) {
-            /* If this failed we're out of luck ... */
-            fglog("$ERROR: can't open OUT file %s", out);
-            break;
-        }
-
-        /* Reopen in read/write mode */
-        debug(4, "Reopen OUT file in read/write mode");
-        fclose(fp);
-        fp = fopen(out, RP_MODE);
-        if (fp == NULL) {
-            /* OUT file deleted in the meantime - retry */
-            debug(4, "OUT file deleted, retrying");
-            continue;
-        }
-        chmod(out, PACKET_MODE);
-
-        /* Lock it, waiting for lock to be granted */
-        debug(4, "Locking OUT file");
-        if (lock_file(fp)) {
-            /* Lock error ... */
-            fglog("$ERROR: can't lock OUT file %s", out);
-            fclose(fp);
-            fp = NULL;
-            break;
-        }
-
-        /* Lock succeeded, but the OUT file may have been deleted */
-        if (!file_is_same(fp, out)) {
-            debug(4, "OUT file deleted, retrying");
-            fclose(fp);
-            fp = NULL;
-        }
+    if ((fp = pkt_open_locked(packet_tmp, TRUE)) == NULL)
+        goto error;
+    chmod(packet_tmp, PACKET_MODE);
+    if (ftruncate(fileno(fp), 0) == -1) {
+        fglog("$ERROR: can't truncate %s", packet_tmp);
+        goto error;
     }
-    while (fp == NULL);
-
-    /*
-     * fp==NULL is an error in the do ... while loop
-     */
-    if (fp == NULL) {
-        if (bsy)
-            bink_bsy_delete(node);
-        return NULL;
+    if (check_access(out, CHECK_FILE) == TRUE) {
+        packet_out = pkt_open_locked(out, FALSE);
+        /* The OUT file may have been deleted in the meantime */
+        if (packet_out == NULL && errno != ENOENT)
+            goto error;
     }
 
     /*
      * Test, whether this is a new empty packet, or an already existing one.
      */
-    /* Seek to EOF */
-    if (fseek(fp, 0L, SEEK_END) == -1) {
-        /* fseek() error ... */
-        fglog("$ERROR: fseek EOF OUT file %s failed", out);
-        if (bsy)
-            bink_bsy_delete(node);
-        fclose(fp);
-        return NULL;
-    }
-    if ((pos = ftell(fp)) == -1L) {
-        /* ftell() error ... */
-        fglog("$ERROR: ftell OUT file %s failed", out);
-        if (bsy)
-            bink_bsy_delete(node);
-        fclose(fp);
-        return NULL;
+    pos = 0;
+    if (packet_out) {
+        /* Seek to EOF */
+        if (fseek(packet_out, 0L, SEEK_END) == -1) {
+            /* fseek() error ... */
+            fglog("$ERROR: fseek EOF OUT file %s failed", out);
+            goto error;
+        }
+        if ((pos = ftell(packet_out)) == -1L) {
+            /* ftell() error ... */
+            fglog("$ERROR: ftell OUT file %s failed", out);
+            goto error;
+        }
     }
 
     if (pos == 0L) {
@@ -257,42 +298,28 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
 
         /* Rest is filled in by pkt_put_hdr() */
         if (pkt_put_hdr(fp, &pkt) == ERROR) {
-            fglog("$ERROR: can't write to packet file %s", out);
-            if (bsy)
-                bink_bsy_delete(node);
-            fclose(fp);
-            return NULL;
+            fglog("$ERROR: can't write to packet file %s", packet_tmp);
+            goto error;
         }
     } else {
         /*
-         * This is an already existing packet file: seek to end of file
-         * - 2, there must be a terminating 0-word. Start writing new data
-         * at the EOF - 2 position.
+         * This is an already existing packet file: there must be a
+         * terminating 0-word at the end. Start with the contents up to it.
          */
-        debug(4, "%s already exists, seek to EOF-2", out);
+        debug(4, "%s already exists, appending", out);
 
-        if (fseek(fp, -2L, SEEK_END) == -1) {
+        if (fseek(packet_out, -2L, SEEK_END) == -1) {
             /* fseek() error ... */
             fglog("$ERROR: fseek EOF-2 OUT file %s failed", out);
-            if (bsy)
-                bink_bsy_delete(node);
-            fclose(fp);
-            return NULL;
+            goto error;
         }
-        if (pkt_get_int16(fp) != 0L) {
+        if (pkt_get_int16(packet_out) != 0L) {
             fglog("$ERROR: malformed packet %s, no terminating 0-word", out);
-            if (bsy)
-                bink_bsy_delete(node);
-            fclose(fp);
-            return NULL;
+            goto error;
         }
-        if (fseek(fp, -2L, SEEK_END) == -1) {
-            /* fseek() error ... */
-            fglog("$ERROR: fseek EOF-2 OUT file %s failed", out);
-            if (bsy)
-                bink_bsy_delete(node);
-            fclose(fp);
-            return NULL;
+        if (pkt_copy(packet_out, fp, pos - 2) == ERROR) {
+            fglog("$ERROR: can't copy OUT file %s to %s", out, packet_tmp);
+            goto error;
         }
     }
 
@@ -300,6 +327,21 @@ static FILE *pkt_open_node(Node * node, char *flav, int bsy)
     packet_node = *node;
 
     return fp;
+
+ error:
+    if (fp) {
+        unlink(packet_tmp);
+        fclose(fp);
+    }
+    if (packet_out) {
+        fclose(packet_out);
+        packet_out = NULL;
+    }
+    if (bsy)
+        bink_bsy_delete(node);
+    packet_bsy = FALSE;
+
+    return NULL;
 }
 
 /*
@@ -337,6 +379,7 @@ static FILE *pkt_create(Node * to)
     /* Rest is filled in by pkt_put_hdr() */
     if (pkt_put_hdr(packet_file, &pkt) == ERROR) {
         fglog("$ERROR: can't write to packet file %s", packet_tmp);
+        pkt_abort();
         return NULL;
     }
 
@@ -369,35 +412,73 @@ FILE *pkt_open(char *name, Node * node, char *flav, int bsy)
 }
 
 /*
- * Write end of packet to packet file, close and rename it.
+ * Close packet file. If everything has been written it is renamed to its
+ * final name, otherwise removed, never leaving an incomplete packet.
  */
-int pkt_close(void)
+static int pkt_finish(int abort)
 {
-    int ret = OK;
+    int ret = abort ? ERROR : OK;
+    int istmp = strcmp(packet_tmp, packet_name) != 0;
 
-    if (packet_file) {
-        /* End of packet */
-        pkt_put_int16(packet_file, 0);
-        ret = fclose(packet_file);
-
-        packet_file = NULL;
+    if (!packet_file)
+        return OK;
 
-        if (packet_node.zone != -1) {
-            if (packet_bsy)
-                bink_bsy_delete(&packet_node);
-            packet_bsy = FALSE;
-            packet_node.zone = -1;
+    if (fflush(packet_file) == EOF || ferror(packet_file)) {
+        fglog("$ERROR: writing packet %s failed", packet_tmp);
+        ret = ERROR;
+    }
+    /* The file is locked in the Binkley outbound, rename or remove it first */
+    if (packet_node.zone == -1 && fclose(packet_file) == EOF) {
+        fglog("$ERROR: closing packet %s failed", packet_tmp);
+        ret = ERROR;
+    }
+    /* Rename .tmp -> .pkt, if not the same name */
+    if (ret == OK && istmp)
+        if (rename(packet_tmp, packet_name) == ERROR) {
+            fglog("$ERROR: can't rename %s to %s", packet_tmp, packet_name);
+            ret = ERROR;
         }
+    if (ret == ERROR && istmp)
+        if (unlink(packet_tmp) == ERROR && errno != ENOENT)
+            fglog("$ERROR: can't remove %s", packet_tmp);
+    if (packet_node.zone != -1 && fclose(packet_file) == EOF) {
+        fglog("$ERROR: closing packet %s failed", packet_name);
+        ret = ERROR;
+    }
+    packet_file = NULL;
 
-        /* Rename .tmp -> .pkt, if not the same name */
-        if (strcmp(packet_tmp, packet_name))
-            if (rename(packet_tmp, packet_name) == ERROR) {
-                fglog("$ERROR: can't rename %s to %s", packet_tmp, packet_name);
-                ret = ERROR;
-            }
+    if (packet_out)
+        fclose(packet_out);
+    packet_out = NULL;
+
+    if (packet_node.zone != -1) {
+        if (packet_bsy)
+            bink_bsy_delete(&packet_node);
+        packet_bsy = FALSE;
+        packet_node.zone = -1;
     }
 
-    return ret;
+    return abort ? OK : ret;
+}
+
+/*
+ * Give up packet, what has been written so far is removed
+ */
+void pkt_abort(void)
+{
+    pkt_finish(TRUE);
+}
+
+/*
+ * Write end of packet to packet file, close and rename it.
+ */
+int pkt_close(void)
+{
+    /* End of packet */
+    if (packet_file)
+        pkt_put_int16(packet_file, 0);
+
+    return pkt_finish(FALSE);
 }
 
 /*
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index f8747c9..32a7c41 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -157,7 +157,7 @@ int check_old(char *, time_t dt);
 void bounce_set_cc(char *);
 int print_file_subst(FILE *, FILE *, Message *, char *, Textlist *, RFCHeader *);
 int bounce_header(char *);
-void bounce_mail(char *, RFCAddr *, Message *, char *, Textlist *, RFCHeader *);
+int bounce_mail(char *, RFCAddr *, Message *, char *, Textlist *, RFCHeader *);
 
 /* charset.c */
 CharsetTable *charset_table_new(void);
@@ -291,9 +291,11 @@ extern void GetTimeInfo(TIMEINFO *);
 
 /* histdb.c */
 short int hi_init_dbc(void);
-void hi_init_history(void);
-void hi_init_tic_history(void);
-void hi_close(void);
+short int hi_init_history(void);
+short int hi_init_tic_history(void);
+int hi_sync(void);
+int hi_close(void);
+void hi_discard(void);
 short int hi_write_dbc(char *, char *, short int);
 short int hi_write_t(time_t, time_t, char *);
 short int hi_write(time_t, char *);
@@ -345,7 +347,7 @@ extern char news_dir[MAXPATH];
 
 int mail_open(int);
 FILE *mail_file(int);
-void mail_close(int);
+int mail_close(int);
 
 /* message.c */
 int pkt_get_line(FILE *, char *, int);
@@ -502,8 +504,10 @@ char *outpkt_outputname(char *, char *, int, int, int, long, char *);
 long outpkt_sequencer(void);
 void outpkt_set_maxopen(int);
 FILE *outpkt_open(Node *, Node *, int, int, int, int);
-void outpkt_close(void);
+int outpkt_close(void);
+void outpkt_abort(void);
 int outpkt_netmail(Message *, Textlist *, char *, char *, char *);
+int outpkt_put_netmail(Message *, Textlist *, char *, char *, char *);
 void send_request(Textlist *);
 
 /* packet.c */
@@ -513,6 +517,7 @@ void pkt_baddir(char *, char *);
 char *pkt_get_baddir(void);
 FILE *pkt_open(char *, Node *, char *, int);
 int pkt_close(void);
+void pkt_abort(void);
 char *pkt_name(void);
 char *pkt_tmpname(void);
 int pkt_isopen(void);
diff --git a/src/toss/ftn2ftn.c b/src/toss/ftn2ftn.c
index c7cff90..eefc1bf 100644
--- a/src/toss/ftn2ftn.c
+++ b/src/toss/ftn2ftn.c
@@ -138,7 +138,8 @@ int do_message(Node * gate, Message * msg, MsgBody * body)
      * Write this message to the output packet
      */
     if (!o_flag && cf_zone() != last_zone)
-        pkt_close();
+        if (pkt_close() == ERROR)
+            return ERROR;
     if (!pkt_isopen())
         if ((fp = pkt_open(o_flag, NULL, NULL, FALSE)) == NULL)
             return ERROR;
@@ -186,9 +187,7 @@ int unpack(Node * gate, FILE * pkt_file, Packet * pkt)
     }
 
     /* Close packet */
-    pkt_close();
-
-    TMPS_RETURN(OK);
+    TMPS_RETURN(pkt_close());
 }
 
 /*
diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index f3dabea..32ae6d3 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -50,6 +50,7 @@ static char out_dir[MAXPATH];
 static char file_attach_dir[MAXPATH];
 
 static int severe_error = OK;   /* ERROR: exit after error */
+static int pack_error = FALSE;  /* TRUE: some packet couldn't be processed */
 
 static int signal_exit = FALSE; /* Flag: TRUE if signal received */
 
@@ -86,7 +87,7 @@ char *arcmail_name(Node *, char *);
 char *packing_pkt_name(char *, char *);
 int arcmail_search(char *, long, long);
 int do_arcmail(char *, Node *, Node *, PktDesc *, FILE *, char *, char *, long);
-int do_noarc(char *, Node *, PktDesc *, FILE *, char *);
+int do_noarc(char *, Node *, PktDesc *, FILE *, char *, int);
 void set_zero(Node *);
 int do_pack(PktDesc *, char *, FILE *, Packing *);
 int do_dirpack(PktDesc *, char *, FILE *, Packing *);
@@ -413,6 +414,20 @@ char *arcmail_name(Node * node, char *dir)
     return buf;
 }
 
+/*
+ * Check for two names of the same file
+ */
+static int same_file(char *name1, char *name2)
+{
+    struct stat st1, st2;
+
+    if (streq(name1, name2))
+        return TRUE;
+
+    return stat(name1, &st1) == 0 && stat(name2, &st2) == 0 &&
+        st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino;
+}
+
 /*
  * Return packet name for adding to archive
  */
@@ -435,8 +450,11 @@ char *packing_pkt_name(char *dir, char *name)
         p++;
     BUF_COPY3(buf, (dir ? dir : out_dir), "/", p);
 
-    /* Don't overwrite an older packet, names may repeat */
-    while (!streq(buf, name) && check_access(buf, CHECK_FILE) != ERROR)
+    /*
+     * Don't overwrite an older packet, names may repeat, unless it's this
+     * one left there by an interrupted run
+     */
+    while (!same_file(buf, name) && check_access(buf, CHECK_FILE) != ERROR)
         str_printf(buf, sizeof(buf), "%s/%.3s%05lx.pkt",
                    (dir ? dir : out_dir), p,
                    sequencer(cf_p_seq_pack()) & 0xfffffL);
@@ -529,6 +547,20 @@ int arcmail_search(char *name, long max_arc, long psize)
     return OK;
 }
 
+/*
+ * Packet couldn't be archived, leave it for the next run
+ */
+static void arcmail_keep(char *name, char *pktn)
+{
+    if (streq(name, pktn))
+        return;
+    if (check_access(name, CHECK_FILE) == ERROR) {
+        if (rename(pktn, name) == -1)
+            fglog("$ERROR: rename %s -> %s failed", pktn, name);
+    } else if (unlink(pktn) == -1)
+        fglog("$ERROR: can't remove %s", pktn);
+}
+
 /*
  * Pack packet to ArcMail archive
  */
@@ -536,13 +568,13 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
                PktDesc * desc, FILE * file, char *prog, char *dir, long max_arc)
 {
     char *arcn, *pktn;
-    int ret;
+    int ret, mode;
 
     arcn = arcmail_name(arcnode, dir);
     pktn = packing_pkt_name(NULL, name);
     if (!arcn)
         return ERROR;
-    if (arcmail_search(arcn, max_arc, check_size(pktn)) == ERROR)
+    if (arcmail_search(arcn, max_arc, check_size(name)) == ERROR)
         return ERROR;
 
     if (bink_mkdir(arcnode) == ERROR) {
@@ -554,17 +586,18 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
     debug(4, "    Packet  name: %s", pktn);
     debug(4, "    Archive name: %s", arcn);
 
-    /* Rename/copy packet */
+    /* Link/copy packet, it's removed when the archive is done */
     if (desc->type == TYPE_ECHOMAIL) {
         fclose(file);
-        /* Simply rename */
-        if (rename(name, pktn) == -1) {
+        /* Simply link, or rename where there are no links */
+        if (!same_file(name, pktn) && link(name, pktn) == -1 &&
+            rename(name, pktn) == -1) {
             fglog("$ERROR: rename %s -> %s failed", name, pktn);
             return ERROR;
         }
     } else {
         /* Copy and process file attaches */
-        if (do_noarc(name, flonode, desc, file, pktn) == ERROR) {
+        if (do_noarc(name, flonode, desc, file, pktn, TRUE) == ERROR) {
             fglog("ERROR: copying/processing %s -> %s failed", name, pktn);
             return ERROR;
         }
@@ -577,23 +610,26 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
     chmod(arcn, PACKET_MODE);
     if (ret) {
         fglog("ERROR: %s failed, exit code=%d", buffer, ret);
+        arcmail_keep(name, pktn);
         return ERROR;
     }
     chmod(arcn, PACKET_MODE);
+
+    if (!dir) {
+        mode = bundle_disp == 0 ? '#' : bundle_disp == 1 ? '^' : '@';
+        if (bink_attach(flonode, mode, arcn,
+                        flav_to_asc(desc->flav), FALSE) == ERROR) {
+            arcmail_keep(name, pktn);
+            return ERROR;
+        }
+    }
+
     if (unlink(pktn) == -1)
         fglog("$ERROR: can't remove %s", pktn);
-    if (!dir)
-        switch (bundle_disp) {
-        case 0:
-            return bink_attach(flonode, '#', arcn,
-                               flav_to_asc(desc->flav), FALSE);
-        case 1:
-            return bink_attach(flonode, '^', arcn,
-                               flav_to_asc(desc->flav), FALSE);
-        case 2:
-            return bink_attach(flonode, '@', arcn,
-                               flav_to_asc(desc->flav), FALSE);
-        }
+    if (unlink(name) == -1 && errno != ENOENT) {
+        fglog("$ERROR: can't remove %s", name);
+        return ERROR;
+    }
 
     return OK;
 }
@@ -602,8 +638,9 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
  * Write packet contents to .OUT packet in Binkley outbound
  */
 int do_noarc(char *name, Node * flonode,
-             PktDesc * desc, FILE * pkt_file, char *out_name)
+             PktDesc * desc, FILE * pkt_file, char *out_name, int keep)
     /* outname --- name of .pkt file, if not NULL */
+    /* keep    --- don't remove packet */
 {
     FILE *fp;
     Message msg = { 0 };
@@ -710,7 +747,7 @@ int do_noarc(char *name, Node * flonode,
         /* Write message header */
         if (pkt_put_msg_hdr(fp, &msg, FALSE) != OK) {
             fglog("$ERROR: writing packet %s", pkt_name());
-            pkt_close();
+            pkt_abort();
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
         }
@@ -720,7 +757,7 @@ int do_noarc(char *name, Node * flonode,
         putc(0, fp);
         if (ferror(fp) != OK) {
             fglog("$ERROR: writing packet %s", pkt_name());
-            pkt_close();
+            pkt_abort();
             fclose(pkt_file);
             TMPS_RETURN(ERROR);
         }
@@ -738,7 +775,7 @@ int do_noarc(char *name, Node * flonode,
             fglog("$ERROR: can't rename packet %s -> %s", tmp_name, name);
             TMPS_RETURN(ERROR);
         }
-    } else if (unlink(name) != OK) {
+    } else if (!keep && unlink(name) != OK) {
         fglog("$ERROR: can't remove packet %s", name);
         TMPS_RETURN(ERROR);
     }
@@ -852,7 +889,7 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
         } else {
             fglog("packet (%ldb) for %s (noarc)",
                   check_size(name), znfp1(&desc->to));
-            ret = do_noarc(name, &desc->to, desc, file, NULL);
+            ret = do_noarc(name, &desc->to, desc, file, NULL, FALSE);
         }
     } else {
         if (file)
@@ -912,7 +949,7 @@ int do_dirpack(PktDesc * desc, char *name, FILE * file, Packing * pack)
               check_size(name), znfp1(&desc->to), pack->dir);
 
         pktn = packing_pkt_name(pack->dir, name);
-        ret = do_noarc(name, &flonode, desc, file, pktn);
+        ret = do_noarc(name, &flonode, desc, file, pktn, FALSE);
     }
 
     /* Delete BSY file */
@@ -991,6 +1028,7 @@ int do_file(char *pkt_name)
     pkt_file = fopen(pkt_name, R_MODE);
     if (!pkt_file) {
         fglog("$ERROR: can't open packet %s", pkt_name);
+        pack_error = TRUE;
         TMPS_RETURN(severe_error);
     }
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
@@ -1003,6 +1041,7 @@ int do_file(char *pkt_name)
     /* Pack it */
     if (do_packing(pkt_name, pkt_file, &pkt) == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
+        pack_error = TRUE;
         TMPS_RETURN(severe_error);
     }
 
@@ -1269,6 +1308,9 @@ int main(int argc, char **argv)
             unlock_program(PROGRAM);
     }
 
+    if (pack_error && ret == EXIT_OK)
+        ret = EXIT_ERROR;
+
     exit_free();
     return ret;
 }
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 7330db2..ab25334 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -50,6 +50,7 @@ typedef struct st_nodelist {
 short int repack_mode = FALSE;
 int do_routing(char *, FILE *, Packet *);
 int do_move(char *, FILE *, PktDesc *);
+int route_commit(void);
 int do_cmd(PktDesc *, Routing *, Node *);
 int do_packet(char *, FILE *, Packet *, PktDesc *);
 void add_via(Textlist *, Node *);
@@ -79,6 +80,7 @@ int zone = 0, net = 0, node = 0;
 static char in_dir[MAXPATH];
 
 static int severe_error = OK;   /* ERROR: exit after error */
+static Textlist route_done;     /* Packets processed, to be removed */
 
 static int signal_exit = FALSE; /* Flag: TRUE if signal received */
 
@@ -381,9 +383,12 @@ int do_move(char *name, FILE * fp, PktDesc * desc)
 
     fclose(fp);
 
-    n = outpkt_sequencer();
-    outpkt_outputname(buffer, pkt_get_outdir(),
-                      desc->grade, desc->type, desc->flav, n, "pkt");
+    /* The numbers wrap or start again, don't overwrite older packets */
+    do {
+        n = outpkt_sequencer();
+        outpkt_outputname(buffer, pkt_get_outdir(),
+                          desc->grade, desc->type, desc->flav, n, "pkt");
+    } while (check_access(buffer, CHECK_FILE) != ERROR);
 
     debug(5, "Rename %s -> %s", name, buffer);
     if (rename(name, buffer) == ERROR) {
@@ -672,14 +677,6 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
             }
         }
 
-        /*
-         * Exit if signal received
-         */
-        if (signal_exit) {
-            ret = severe_error = ERROR;
-            break;
-        }
-
         tmps_freeall();
     } /**while(type == MSG_TYPE)**/
 
@@ -689,14 +686,38 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
     }
 
     if (ret == OK && *pkt_name != '\0')
-        if (unlink(pkt_name)) {
-            fglog("$ERROR: can't unlink packet %s", pkt_name);
-            TMPS_RETURN(severe_error = ERROR);
-        }
+        tl_append(&route_done, pkt_name);
 
     TMPS_RETURN(ret);
 }
 
+/*
+ * Finish output packets and only then remove the packets processed
+ */
+int route_commit(void)
+{
+    Textline *tl;
+    int ret = OK;
+
+    if (severe_error == ERROR) {
+        /* Input packets stay */
+        outpkt_abort();
+        ret = ERROR;
+    } else if (outpkt_close() == ERROR) {
+        fglog("ERROR: output packets incomplete, input packets not removed");
+        ret = ERROR;
+    } else {
+        for (tl = route_done.first; tl; tl = tl->next)
+            if (unlink(tl->line)) {
+                fglog("$ERROR: can't unlink packet %s", tl->line);
+                ret = ERROR;
+            }
+    }
+    tl_clear(&route_done);
+
+    return ret;
+}
+
 /*
  * Process one packet file, a malformed one is set aside and doesn't keep us
  * from processing the others
@@ -772,8 +793,12 @@ int do_repack(char *dir, char *wildcard, int repack_time)
             continue;
 #endif                          /* DO_BSY_FILES */
 
-        snprintf(buf, sizeof(buf), "%s/toss/route/m%c%c%05lx.pkt", cf_p_spooldir(),
-                TYPE_NETMAIL, FLAV_NORMAL, outpkt_sequencer());
+        /* The numbers wrap or start again, don't overwrite older packets */
+        do {
+            snprintf(buf, sizeof(buf), "%s/toss/route/m%c%c%05lx.pkt",
+                     cf_p_spooldir(), TYPE_NETMAIL, FLAV_NORMAL,
+                     outpkt_sequencer());
+        } while (check_access(buf, CHECK_FILE) != ERROR);
 
         debug(5, "rename %s -> %s", pkt_name, buf);
         if (rename(pkt_name, buf) == ERROR) {
@@ -782,14 +807,12 @@ int do_repack(char *dir, char *wildcard, int repack_time)
         } else if (do_file(buf) == ERROR) {
             debug(3, "do_file(): error processing");
             ret = ERROR;
-        } else if (unlink(buf)) {
-            fglog("$ERROR: can't unlink packet %s", buf);
         }
 
 #ifdef DO_BSY_FILES
         unlink(bsy);
 #endif
-        if (ret == ERROR)
+        if (ret == ERROR || signal_exit)
             break;
     }
     dir_close();
@@ -986,6 +1009,7 @@ int main(int argc, char **argv)
     signal(SIGQUIT, prog_signal);
 
     ret = EXIT_OK;
+    tl_init(&route_done);
 
     if (p_flag) {
         char buf[MAXPATH];
@@ -1024,6 +1048,7 @@ int main(int argc, char **argv)
 
                 if (do_repack(buf, pattern, repack_time) == ERROR) {
                     debug(1, "error processing %s", buf);
+                    ret = EXIT_ERROR;
                 }
             }
         } else {                /* non-aso */
@@ -1032,6 +1057,7 @@ int main(int argc, char **argv)
 
                 if (do_repack(buf, pattern, repack_time) == ERROR) {
                     debug(1, "error processing %s", buf);
+                    ret = EXIT_ERROR;
                     continue;
                 }
                 /* Open and read directory */
@@ -1053,6 +1079,10 @@ int main(int argc, char **argv)
                 }
             }
         }                       /* non-aso */
+
+        if (route_commit() == ERROR)
+            ret = EXIT_ERROR;
+
         /* Lock file */
 
         if (l_flag)
@@ -1084,13 +1114,16 @@ int main(int argc, char **argv)
         repack_mode = FALSE;
 
         for (pkt_name = dir_get(TRUE); pkt_name; pkt_name = dir_get(FALSE))
-            if (do_file(pkt_name) == ERROR) {
+            if (do_file(pkt_name) == ERROR || signal_exit) {
                 ret = EXIT_ERROR;
                 break;
             }
 
         dir_close();
 
+        if (route_commit() == ERROR)
+            ret = EXIT_ERROR;
+
         /* Lock file */
         if (l_flag)
             unlock_program(PROGRAM);
@@ -1109,18 +1142,19 @@ int main(int argc, char **argv)
         repack_mode = FALSE;
 
         for (; optind < argc; optind++)
-            if (do_file(argv[optind]) == ERROR) {
+            if (do_file(argv[optind]) == ERROR || signal_exit) {
                 ret = EXIT_ERROR;
                 break;
             }
 
+        if (route_commit() == ERROR)
+            ret = EXIT_ERROR;
+
         /* Lock file */
         if (l_flag)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
-
     if (p_flag) {
         BUF_COPY4(buffer, cf_p_libexecdir(), "/ftnpack -I ", cf_p_spooldir(),
                   "/toss/route");
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 24d05cc..93f7892 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -76,6 +76,8 @@ int do_netmail(Packet *, Message *, MsgBody *, int);
 #endif                          /* !SPYES */
 int unpack(FILE *, Packet *);
 int unpack_file(char *);
+int toss_commit(void);
+int toss_end(int);
 void prog_signal(int);
 void short_usage(void);
 void usage(void);
@@ -105,6 +107,7 @@ static char in_dir[MAXPATH];    /* Input directory */
 static char must_exit = FALSE;  /* Flag for -x operation */
 static int msg_count = 0;       /* Counter for -m, -x operation */
 static int severe_error = OK;   /* ERROR: exit after error */
+static Textlist toss_done;      /* Packets processed, to be removed */
 static int signal_exit = FALSE; /* Flag: TRUE if signal received */
 
 short int int_uplinks = FALSE;  /* Flag: TRUE if uplinks initialised */
@@ -968,7 +971,7 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
                 lon_search(&area->nodes, &msg->node_from))
 #endif                          /* INSECURE_DONT_PUT_INTO_DUPE_DB */
                 if (hi_write(msg->date, msgid) == ERROR)
-                    return ERROR;
+                    return severe_error = ERROR;
         }
     }
 
@@ -1408,7 +1411,11 @@ static void ping_generate_reply(Message *msg, MsgBody *body)
     saved_outdir = strsave(pkt_get_outdir());
     pkt_outdir(cf_p_outpkt(), NULL);
 
-    outpkt_netmail(&rmsg, &rbody, PROGRAM, default_origin, default_tearline);
+    if (outpkt_put_netmail(&rmsg, &rbody, PROGRAM, default_origin,
+                           default_tearline) == ERROR) {
+        fglog("$ERROR: can't write ping reply");
+        severe_error = ERROR;
+    }
 
     pkt_outdir(saved_outdir, NULL);
     xfree(saved_outdir);
@@ -1700,14 +1707,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 TMPS_RETURN(ERROR);
         }
 
-        /*
-         * Exit if signal received
-         */
-        if (signal_exit) {
-            outpkt_close();
-            msg_count = 0;
-            TMPS_RETURN(severe_error = ERROR);
-        }
+        if (severe_error == ERROR)
+            TMPS_RETURN(ERROR);
 
         /*
          * Check for number of messages exceeding maxmsg
@@ -1715,8 +1716,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
         if (maxmsg && msg_count >= maxmsg) {
             if (x_flag)
                 must_exit = TRUE;
-            else
-                outpkt_close();
+            else if (toss_commit() == ERROR)
+                TMPS_RETURN(severe_error = ERROR);
             msg_count = 0;
         }
 
@@ -1770,21 +1771,71 @@ int unpack_file(char *pkt_name)
     if (unpack(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
         fclose(pkt_file);
+        /* Nothing wrong with the packet, keep it for the next run */
+        if (severe_error == ERROR)
+            TMPS_RETURN(ERROR);
         rename_bad(pkt_name);
-        TMPS_RETURN(severe_error);
+        TMPS_RETURN(OK);
     }
 
     fclose(pkt_file);
 
-    if (unlink(pkt_name)) {
-        fglog("$ERROR: can't unlink %s", pkt_name);
-        rename_bad(pkt_name);
-        TMPS_RETURN(ERROR);
-    }
+    tl_append(&toss_done, pkt_name);
 
     TMPS_RETURN(OK);
 }
 
+/*
+ * Finish output packets, then history, and only then remove the packets
+ * processed
+ */
+int toss_commit(void)
+{
+    Textline *tl;
+    int ret = OK;
+
+    if (outpkt_close() == ERROR) {
+        fglog("ERROR: output packets incomplete, input packets not removed");
+        return severe_error = ERROR;
+    }
+
+    if (dupe_check && hi_sync() == ERROR)
+        ret = ERROR;
+
+    for (tl = toss_done.first; tl; tl = tl->next)
+        if (unlink(tl->line)) {
+            fglog("$ERROR: can't unlink %s", tl->line);
+            rename_bad(tl->line);
+            ret = ERROR;
+        }
+    tl_clear(&toss_done);
+
+    return ret;
+}
+
+/*
+ * End of processing
+ */
+int toss_end(int c)
+{
+    if (severe_error == OK && toss_commit() == ERROR)
+        c = EXIT_ERROR;
+
+    if (severe_error == ERROR) {
+        /* Input packets stay, forget what has been done with them */
+        outpkt_abort();
+        if (dupe_check)
+            hi_discard();
+        tl_clear(&toss_done);
+        c = EXIT_ERROR;
+    }
+
+    if (dupe_check && hi_close() == ERROR)
+        c = EXIT_ERROR;
+
+    return c;
+}
+
 /*
  * Function called on SIGINT
  */
@@ -2112,6 +2163,7 @@ int main(int argc, char **argv)
 #endif                          /* FTN_ACL */
 
     tl_init(&notify);
+    tl_init(&toss_done);
 
     /*
      * Process local options
@@ -2186,11 +2238,18 @@ int main(int argc, char **argv)
                 exit_free();
                 return EXIT_BUSY;
             }
-            hi_init_history();
+            if (hi_init_history() == ERROR) {
+                unlock_program(cf_p_lock_history());
+                if (l_flag)
+                    unlock_program(PROGRAM);
+                unlock_path(bbslock);
+                exit_free();
+                return EX_OSFILE;
+            }
         }
 
         for (pkt_name = dir_get(TRUE); pkt_name; pkt_name = dir_get(FALSE)) {
-            if (unpack_file(pkt_name) == ERROR) {
+            if (unpack_file(pkt_name) == ERROR || signal_exit) {
                 c = EXIT_ERROR;
                 break;
             }
@@ -2200,11 +2259,10 @@ int main(int argc, char **argv)
             }
         }
 
-        /* Close history */
-        if (dupe_check) {
-            hi_close();
+        /* Write output packets and history */
+        c = toss_end(c);
+        if (dupe_check)
             unlock_program(cf_p_lock_history());
-        }
 
         dir_close();
 
@@ -2232,12 +2290,19 @@ int main(int argc, char **argv)
                 exit_free();
                 return EXIT_BUSY;
             }
-            hi_init_history();
+            if (hi_init_history() == ERROR) {
+                unlock_program(cf_p_lock_history());
+                if (l_flag)
+                    unlock_program(PROGRAM);
+                unlock_path(bbslock);
+                exit_free();
+                return EX_OSFILE;
+            }
         }
 
         /* Process packet files on command line */
         for (; optind < argc; optind++) {
-            if (unpack_file(argv[optind]) == ERROR) {
+            if (unpack_file(argv[optind]) == ERROR || signal_exit) {
                 c = EXIT_ERROR;
                 break;
             }
@@ -2247,19 +2312,16 @@ int main(int argc, char **argv)
             }
         }
 
-        /* Close history */
-        if (dupe_check) {
-            hi_close();
+        /* Write output packets and history */
+        c = toss_end(c);
+        if (dupe_check)
             unlock_program(cf_p_lock_history());
-        }
 
         /* Lock file */
         if (l_flag)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
-
     /* Stop time */
     toss_delta = time(NULL) - toss_start;
     if (toss_delta <= 0)
@@ -2326,8 +2388,10 @@ int main(int argc, char **argv)
     if (notify.n > 0)
         send_request(&notify);
 
-    if (ERROR == areasbbs_rewrite())
+    if (ERROR == areasbbs_rewrite()) {
         fglog("error while rewriting areas.bbs");
+        c = EXIT_ERROR;
+    }
 
     unlock_path(bbslock);
 
-- 
2.43.0


From 007fc407bf7be7f34bdf8c598b9a0375a6b07861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 66/86] fix: ftn2rfc, rfc2ftn: input removed or taken as done
 though the output could not be written

---
 src/gate/ftn2rfc.c | 37 +++++++++++++++++++++++--------------
 src/gate/rfc2ftn.c | 32 +++++++++++++++++++++++++++-----
 2 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index f61f1b1..551351e 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -56,6 +56,7 @@ void usage(void);
 
 /* Command line options */
 int n_flag = FALSE;
+static int io_error = OK;       /* ERROR: output could not be written */
 int t_flag = FALSE;
 
 char in_dir[MAXPATH];
@@ -1387,7 +1388,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
             fglog("BOUNCE: insecure mail from %s",
                   s_rfcaddr_to_asc(&addr_from, TRUE));
 	    h = header_read_list(&theader);
-            bounce_mail("insecure", &addr_from, &msg, msgbody_rfc_to, &tbody, h);
+            if (bounce_mail("insecure", &addr_from, &msg, msgbody_rfc_to, &tbody, h) == ERROR)
+                ret = io_error = ERROR;
             header_free(h);
             tl_clear(&theader);
             tl_clear(&tbody);
@@ -1437,8 +1439,9 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 fglog("BOUNCE: mail from unregistered %s",
                       s_rfcaddr_to_asc(&addr_from, TRUE));
                 h = header_read_list(&theader);
-                bounce_mail("restricted", &addr_from, &msg,
-                            msgbody_rfc_to, &tbody, h);
+                if (bounce_mail("restricted", &addr_from, &msg,
+                            msgbody_rfc_to, &tbody, h) == ERROR)
+                    ret = io_error = ERROR;
                 header_free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
@@ -1453,7 +1456,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 fglog("BOUNCE: mail from down %s",
                       s_rfcaddr_to_asc(&addr_from, TRUE));
                 h = header_read_list(&theader);
-                bounce_mail("down", &addr_from, &msg, msgbody_rfc_to, &tbody, h);
+                if (bounce_mail("down", &addr_from, &msg, msgbody_rfc_to, &tbody, h) == ERROR)
+                    ret = io_error = ERROR;
                 header_free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
@@ -1476,7 +1480,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
                     fglog("BOUNCE: mail from %s with address in to field: %s",
                           s_rfcaddr_to_asc(&addr_from, TRUE), mail_to);
                     h = header_read_list(&theader);
-                    bounce_mail("addrinto", &addr_from, &msg, mail_to, &tbody, h);
+                    if (bounce_mail("addrinto", &addr_from, &msg, mail_to, &tbody, h) == ERROR)
+                        ret = io_error = ERROR;
                     header_free(h);
                     tl_clear(&theader);
                     tl_clear(&tbody);
@@ -1506,7 +1511,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
                 fglog("BOUNCE: mail from %s without To line",
                       s_rfcaddr_to_asc(&addr_from, TRUE));
                 h = header_read_list(&theader);
-                bounce_mail("noto", &addr_from, &msg, mail_to, &tbody, h);
+                if (bounce_mail("noto", &addr_from, &msg, mail_to, &tbody, h) == ERROR)
+                    ret = io_error = ERROR;
                 header_free(h);
                 tl_clear(&theader);
                 tl_clear(&tbody);
@@ -1979,7 +1985,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
         if (area) {
             if (!mail_file('n'))
                 if (mail_open('n') == ERROR) {
-                    ret = ERROR;
+                    ret = io_error = ERROR;
                     break;
                 }
 
@@ -1991,11 +1997,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
             tl_print(&theader, mail_file('n'));
             tl_print(&tbody, mail_file('n'));
 
-            if (single_articles)
-                mail_close('n');
+            if (single_articles && mail_close('n') == ERROR)
+                ret = io_error = ERROR;
         } else {
             if (mail_open('m') == ERROR) {
-                ret = ERROR;
+                ret = io_error = ERROR;
                 break;
             }
 
@@ -2003,7 +2009,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
             tl_print(&theader, mail_file('m'));
             tl_print(&tbody, mail_file('m'));
             /* Close mail */
-            mail_close('m');
+            if (mail_close('m') == ERROR)
+                ret = io_error = ERROR;
         }
 
         tl_clear(&theader);
@@ -2016,8 +2023,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
         cs_save = NULL;
     } /**while(type == MSG_TYPE)**/
 
-    if (mail_file('n'))
-        mail_close('n');
+    if (mail_file('n') && mail_close('n') == ERROR)
+        ret = io_error = ERROR;
 
     TMPS_RETURN(ret);
 }
@@ -2056,10 +2063,12 @@ int unpack_file(char *pkt_name)
     fglog("packet %s (%ldb) from %s to %s", pkt_name, check_size(pkt_name),
           znfp1(&pkt.from), znfp2(&pkt.to));
 
+    io_error = OK;
     if (unpack(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
         fclose(pkt_file);
-        if (n_flag)
+        /* Nothing wrong with the packet, keep it for the next run */
+        if (n_flag || io_error == ERROR)
             return ERROR;
         else {
             rename_bad(pkt_name);
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 4085abf..baebef6 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -926,6 +926,8 @@ static void put_body_text(FILE *fp, char *text, bool *bol, bool *area)
     pkt_put_line(fp, s);
 }
 
+static int io_error = OK;       /* ERROR: packets could not be written */
+
 static int snd_message(Message * msg, Area * parea,
                        RFCAddr rfc_from, RFCAddr rfc_to, char *subj,
                        long size, char *flags, int fido, MIMEInfo * mime,
@@ -1007,7 +1009,8 @@ static int snd_message(Message * msg, Area * parea,
             || (!o_flag && direct != last_direct)
             || (!o_flag && direct && (!node_eq(&nn, &last_node)
                                       || strcmp(flav, last_flav))))) {
-        pkt_close();
+        if (pkt_close() == ERROR)
+            io_error = ERROR;
         nmsg = 0;
     }
     if (!pkt_isopen()) {
@@ -1022,6 +1025,7 @@ static int snd_message(Message * msg, Area * parea,
         cf_set_curr(&addr);
 
         if (sf == NULL) {
+            io_error = ERROR;
             tl_free(dec_body);
             return EX_CANTCREAT;
         }
@@ -1040,6 +1044,7 @@ static int snd_message(Message * msg, Area * parea,
         for (p = xstrtok(subj, " \t"); p; p = xstrtok(NULL, " \t")) {
             /* Attach */
             if (bink_attach(&nn, 0, p, flav, FALSE) != OK) {
+                io_error = ERROR;
                 tl_free(dec_body);
                 return EX_CANTCREAT;
             }
@@ -1627,7 +1632,9 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                         fglog
                             ("BOUNCE: Postings from address `%s' to group `%s' not allowed - skipped, sent notify",
                              s_rfcaddr_to_asc(&rfc_from, FALSE), pa->group);
-                        bounce_mail("acl", &rfc_from, &msg, pa->group, &body, h);
+                        if (bounce_mail("acl", &rfc_from, &msg, pa->group,
+                                        &body, h) == ERROR)
+                            io_error = ERROR;
                     } else
                         fglog
                             ("BOUNCE: Postings from address `%s' to group `%s' not allowed - skipped",
@@ -1791,7 +1798,9 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                 fglog
                     ("BOUNCE: Gateway netmail from address `%s' to `%s' not allowed - skipped, sent notify",
                      s_rfcaddr_to_asc(&rfc_from, FALSE), asc_node_to);
-                bounce_mail("acl_netmail", &rfc_from, &msg, asc_node_to, &body, h);
+                if (bounce_mail("acl_netmail", &rfc_from, &msg, asc_node_to,
+                                &body, h) == ERROR)
+                    io_error = ERROR;
             } else {
                 fglog
                     ("BOUNCE: Gateway netmail from address `%s' to `%s' not allowed - skipped",
@@ -2385,6 +2394,11 @@ int main(int argc, char **argv)
         if (f_flag) {
             /* Save current position if necessary */
             if ((nmsg % POS_INTERVAL) == 0) {
+                /* Articles up to this one must not be lost */
+                if (pkt_close() == ERROR)
+                    io_error = ERROR;
+                if (io_error == ERROR)
+                    break;
                 pos = ftell(fp);
                 debug(4, "Position in list file %ld, writing to %s",
                       pos, posfile);
@@ -2505,8 +2519,16 @@ int main(int argc, char **argv)
             break;
     }
 
-    pkt_close();
-    if (f_flag) {
+    if (pkt_close() == ERROR)
+        io_error = ERROR;
+    if (io_error == ERROR) {
+        fglog("ERROR: writing packets failed");
+        if (status == EX_OK)
+            status = EX_CANTCREAT;
+    }
+    if (f_flag && io_error == ERROR) {
+        fclose(fp);
+    } else if (f_flag) {
         debug(3, "Removing list file %s", f_flag);
         fclose(fp);
         unlink(f_flag);
-- 
2.43.0


From ecc0bcbe4ca3b1d68cecf002180d71d7ae01af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 67/86] fix: failed locks not reported, crash closing a history
 without base file, endless loops when log or sequence files fail, list of
 articles lost when files can't be opened

---
 src/common/binkley.c   |  2 ++
 src/common/dbz.c       |  7 ++++---
 src/common/fopen.c     |  6 +++++-
 src/common/lock.c      | 18 ++++++++++++++----
 src/common/sequencer.c |  2 +-
 src/gate/rfc2ftn.c     | 12 +++++++++++-
 src/toss/ftnroute.c    |  4 ++--
 src/toss/runinc.c      |  4 ++--
 8 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 22f2ec3..7330598 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -188,6 +188,8 @@ int bink_bsy_delete(Node * node)
     ret = unlink(name);
     debug(5, "Deleting BSY file %s %s.",
           name, ret == -1 ? "failed" : "succeeded");
+    if (ret == -1)
+        fglog("$ERROR: can't remove BSY file %s", name);
 
     return ret == -1 ? ERROR : OK;
 #else
diff --git a/src/common/dbz.c b/src/common/dbz.c
index 6a55b78..1d6ae34 100644
--- a/src/common/dbz.c
+++ b/src/common/dbz.c
@@ -679,7 +679,8 @@ char *name;
     /* pick up configuration */
     if (getconf(dirf, pagf, &conf) < 0) {
         DEBUG(("dbminit: getconf failure\n"));
-        (void)fclose(basef);
+        if (basef != NULL)
+            (void)fclose(basef);
         (void)fclose(pagf);
         (void)fclose(dirf);
         free(pagfname);
@@ -732,7 +733,7 @@ int dbmclose()
         DEBUG(("dbmclose: fclose(pagf) failed\n"));
         ret = -1;
     }
-    pagf = basef;               /* ensure valid pointer; dbzsync checks it */
+    pagf = dirf;                /* ensure valid pointer; dbzsync checks it */
     if (dbzsync() < 0)
         ret = -1;
     if (bufpagf != NULL && fclose(bufpagf) == EOF) {
@@ -742,7 +743,7 @@ int dbmclose()
     if (corepag != NULL)
         free((char *)corepag);
     corepag = NULL;
-    if (fclose(basef) == EOF) {
+    if (basef != NULL && fclose(basef) == EOF) {
         DEBUG(("dbmclose: fclose(basef) failed\n"));
         ret = -1;
     }
diff --git a/src/common/fopen.c b/src/common/fopen.c
index f299051..3a14eb3 100644
--- a/src/common/fopen.c
+++ b/src/common/fopen.c
@@ -47,8 +47,12 @@ FILE *fopen_expand_name(char *name, char *mode, int err_abort)
             if (err_abort) {
                 fglog("$ERROR: can't open %s", xname);
                 exit(EX_OSFILE);
-            } else
+            } else {
+                int err = errno;
+
                 fglog("$WARNING: can't open %s", xname);
+                errno = err;
+            }
         }
     }
     return fp;
diff --git a/src/common/lock.c b/src/common/lock.c
index 98f1578..0f93da5 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -56,8 +56,8 @@ int check_stale_lock(char *name)
     if (fp == NULL) {
         if (errno == ENOENT)
             return LOCKFILE_UNLOCKED;
-        else
-            return LOCKFILE_ERROR;
+        fglog("$ERROR: can't open lock file %s", name);
+        return LOCKFILE_ERROR;
     }
 
     /*
@@ -300,11 +300,14 @@ static int create_lockfile(char *name)
 
     str_printf(uniq_name, sizeof(uniq_name), "%s.L%d", name, (int)getpid());
 
-    if ((fp = fopen(uniq_name, "w")) == NULL)
+    if ((fp = fopen(uniq_name, "w")) == NULL) {
+        fglog("$ERROR: creating lock file %s failed", uniq_name);
         return LOCKFILE_ERROR;
+    }
     fprintf(fp, "%d\n", (int)getpid());
     err = ferror(fp);
     if (fclose(fp) != 0 || err) {
+        fglog("$ERROR: writing lock file %s failed", uniq_name);
         unlink(uniq_name);
         return LOCKFILE_ERROR;
     }
@@ -314,7 +317,12 @@ static int create_lockfile(char *name)
 
     if (err == EEXIST)
         return LOCKFILE_LOCKED;
-    return err ? LOCKFILE_ERROR : LOCKFILE_UNLOCKED;
+    if (err) {
+        errno = err;
+        fglog("$ERROR: creating lock file %s failed", name);
+        return LOCKFILE_ERROR;
+    }
+    return LOCKFILE_UNLOCKED;
 }
 
 /*
@@ -367,6 +375,8 @@ int unlock_lockfile(char *name)
     ret = unlink(name);
     debug(7, "Deleting lock file %s %s.",
           name, ret == -1 ? "failed" : "succeeded");
+    if (ret == -1)
+        fglog("$ERROR: can't remove lock file %s", name);
 
     return ret == -1 ? ERROR : OK;
 }
diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index a7d88a3..6b6c476 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -75,7 +75,7 @@ long sequencer_nx(char *seqname, int err_abort)
         seqn = 0;
     seqn++;
 
-    rewind(fp);
+    err |= fseek(fp, 0L, SEEK_SET);
     fprintf(fp, "%ld\n", seqn);
 
     /* The number isn't ours, if others don't see it is taken */
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index baebef6..b85ab48 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2399,7 +2399,11 @@ int main(int argc, char **argv)
                     io_error = ERROR;
                 if (io_error == ERROR)
                     break;
-                pos = ftell(fp);
+                if ((pos = ftell(fp)) == ERROR) {
+                    fglog("$ERROR: can't get position in list file %s", f_flag);
+                    io_error = ERROR;
+                    break;
+                }
                 debug(4, "Position in list file %ld, writing to %s",
                       pos, posfile);
                 fppos = fopen_expand_name(posfile, W_MODE, TRUE);
@@ -2419,6 +2423,12 @@ int main(int argc, char **argv)
                 BUF_COPY(article, p);
 
             if (!(fpart = fopen_expand_name(article, R_MODE_T, FALSE))) {
+                /* It is there, but not now */
+                if (errno != ENOENT && errno != ENOTDIR && errno != EACCES) {
+                    fglog("$ERROR: can't open article %s", article);
+                    io_error = ERROR;
+                    break;
+                }
                 if (log_artnf)
                     fglog("WARNING: article %s not found", article);
                 continue;
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index ab25334..56de336 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -1160,10 +1160,10 @@ int main(int argc, char **argv)
                   "/toss/route");
         debug(9, "exec: %s", buffer);
 
-        if (verbose) {
+        if (verbose > 0) {
             log_file("stdout");
             BUF_APPEND(buffer, " -");
-            for (c = verbose; c; c--)
+            for (c = verbose; c > 0; c--)
                 BUF_APPEND(buffer, "v");
         }
 
diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 87d9944..0a44707 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -860,10 +860,10 @@ int main(int argc, char **argv)
     log_file(buffer);
 
     /* More verbose for runing subprograms */
-    if (verbose) {
+    if (verbose > 0) {
         log_file("stdout");
         BUF_APPEND(verbose_flag, " -");
-        for (c = verbose; c; c--)
+        for (c = verbose; c > 0; c--)
             BUF_APPEND(verbose_flag, "v");
     }
 
-- 
2.43.0


From d45fae3bc98d19518ca84784ba5be794bd02de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 68/86] fix: tosser stopped for good at a message whose MSGID
 is too long for the dupe database

---
 src/common/histdb.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/common/histdb.c b/src/common/histdb.c
index 8cbb30b..5f8a717 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -255,6 +255,25 @@ short int hi_write_dbc(char *rfc_msgid, char *fido_msgid, short int dont_flush)
     return OK;
 }
 
+/*
+ * The database doesn't take keys of any length, replace the end of long ones
+ */
+static char *hi_key(char *s)
+{
+    static char buf[DBZMAXKEY];
+    size_t len = strlen(s);
+
+    if (len + 1 < DBZMAXKEY)
+        return s;
+
+    crc32_init();
+    crc32_compute((unsigned char *)s, len);
+    snprintf(buf, sizeof(buf), "%.200s %lx %08lx", s, (unsigned long)len,
+             crc32_value());
+
+    return buf;
+}
+
 /*
  * Write record to MSGID history
  */
@@ -264,6 +283,8 @@ short int hi_write_t(time_t t, time_t msgdate, char *msgid)
     char *rec;
     datum key, val;
 
+    msgid = hi_key(msgid);
+
     /* Write MSGID line to history text file */
     rec = s_printf("%s\t%ld\n", msgid, (long)t);
     offset = hi_append(rec);
@@ -305,6 +326,8 @@ short int hi_write_avail(char *area, char *desc)
     char *rec;
     datum key, val;
 
+    area = hi_key(area);
+
     /* Write MSGID line to history text file */
     rec = s_printf("%s\t%s\n", area, desc);
     offset = hi_append(rec);
@@ -334,6 +357,8 @@ short int hi_test(char *key_string)
 {
     datum key, val;
 
+    key_string = hi_key(key_string);
+
     key.dptr = key_string;      /* Key */
     key.dsize = strlen(key_string) + 1;
     val = dbzfetch(key);
-- 
2.43.0


From 95053d86ec1a3dd87f1db9562fa145bb2a836492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 69/86] fix: ftnexpire replaced the history by a truncated one
 on write errors

---
 src/toss/ftnexpire.c | 109 +++++++++++++++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 24 deletions(-)

diff --git a/src/toss/ftnexpire.c b/src/toss/ftnexpire.c
index f361674..b058ba0 100644
--- a/src/toss/ftnexpire.c
+++ b/src/toss/ftnexpire.c
@@ -67,6 +67,54 @@ static time_t exp_sec = 0;
 static long n_expired = 0;
 static long n_processed = 0;
 
+/*
+ * Replace the old history with the new one, all three files or none
+ */
+static int replace_history(void)
+{
+    char *old[] = { history, history_dir, history_pag };
+    char *new[] = { history_n, history_n_dir, history_n_pag };
+    char backup[3][MAXPATH];
+    int i, n, ret = OK;
+
+    for (n = 0; n < 3; n++) {
+        BUF_COPY2(backup[n], old[n], ".o");
+        unlink(backup[n]);
+        if (link(old[n], backup[n]) == ERROR) {
+            fglog("$ERROR: link %s -> %s failed", old[n], backup[n]);
+            ret = ERROR;
+            break;
+        }
+    }
+
+    for (i = 0; ret == OK && i < 3; i++)
+        if (rename(new[i], old[i]) == ERROR) {
+            fglog("$ERROR: rename %s -> %s failed", new[i], old[i]);
+            ret = ERROR;
+            while (--i >= 0)
+                if (rename(backup[i], old[i]) == ERROR)
+                    fglog("$ERROR: rename %s -> %s failed", backup[i], old[i]);
+            break;
+        }
+
+    while (--n >= 0)
+        unlink(backup[n]);
+
+    return ret;
+}
+
+/*
+ * Remove new history that can't be used
+ */
+static int discard_new_history(void)
+{
+    unlink(history_n);
+    unlink(history_n_dir);
+    unlink(history_n_pag);
+
+    return ERROR;
+}
+
 /*
  * Run expire
  */
@@ -74,6 +122,7 @@ int do_expire(int type)
 {
     FILE *hi_o, *hi_n, *fp;
     TIMEINFO ti;
+    int ret = OK;
 
     /* Filenames */
     if (type == 1) {
@@ -139,14 +188,14 @@ int do_expire(int type)
         fglog("$ERROR: open MSGID history %s failed", history_n_dir);
         fclose(hi_o);
         fclose(hi_n);
-        return ERROR;
+        return discard_new_history();
     }
     fclose(fp);
     if ((fp = fopen(history_n_pag, W_MODE)) == NULL) {
         fglog("$ERROR: open MSGID history %s failed", history_n_pag);
         fclose(hi_o);
         fclose(hi_n);
-        return ERROR;
+        return discard_new_history();
     }
     fclose(fp);
 
@@ -156,36 +205,41 @@ int do_expire(int type)
         fglog("$ERROR: dbzagain %s failed", history_n);
         fclose(hi_o);
         fclose(hi_n);
-        return ERROR;
+        return discard_new_history();
     }
 
     /* Process entries */
-    while (fgets(buffer, sizeof(buffer), hi_o)) {
-        do_line(hi_n, buffer, type);
+    while (ret == OK && fgets(buffer, sizeof(buffer), hi_o))
+        ret = do_line(hi_n, buffer, type);
+    if (ferror(hi_o)) {
+        fglog("$ERROR: reading MSGID history %s failed", history);
+        ret = ERROR;
     }
 
     /* Close everything */
-    /**FIXME: error checking**/
     fclose(hi_o);
-    fclose(hi_n);
-    dbzsync();
-    dbmclose();
-
-    /* Rename */
-    if (rename(history_n, history) == ERROR) {
-        fglog("$ERROR: rename %s -> %s failed", history_n, history);
-        return ERROR;
+    if (fclose(hi_n) == EOF) {
+        fglog("$ERROR: close MSGID history %s failed", history_n);
+        ret = ERROR;
     }
-    if (rename(history_n_dir, history_dir) == ERROR) {
-        fglog("$ERROR: rename %s -> %s failed", history_n_dir, history_dir);
-        return ERROR;
+    if (ret == OK && dbzsync() < 0) {
+        fglog("$ERROR: dbzsync MSGID history %s failed", history_n);
+        ret = ERROR;
     }
-    if (rename(history_n_pag, history_pag) == ERROR) {
-        fglog("$ERROR: rename %s -> %s failed", history_n_pag, history_pag);
-        return ERROR;
+    if (ret == ERROR)
+        dbzcancel();
+    if (dbmclose() < 0) {
+        fglog("$ERROR: dbmclose MSGID history %s failed", history_n);
+        ret = ERROR;
     }
 
-    return OK;
+    /* Rename */
+    if (ret == OK)
+        ret = replace_history();
+    if (ret == ERROR)
+        discard_new_history();
+
+    return ret;
 }
 
 /*
@@ -212,7 +266,7 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p || !rfc_msgid) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
@@ -222,10 +276,17 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
+    /* Never found in the database */
+    if (strlen(msgid) + 1 >= DBZMAXKEY) {
+        fglog("$WARNING: illegal entry in %s, line %ld", history,
+              history_line);
+        return OK;
+    }
+
     /* Check expire */
     t = atol(p);
     expired = t < exp_sec;
@@ -245,7 +306,7 @@ int do_line(FILE * hi_n, char *line, int type)
         else
             ret = fprintf(hi_n, "%s\t%ld\n", msgid, (long)t);
 
-        if (ret == ERROR || fflush(hi_n) == ERROR) {
+        if (ret < 0 || fflush(hi_n) == EOF) {
             fglog("$ERROR: write to MSGID history failed");
             return ERROR;
         }
-- 
2.43.0


From 7b42b2efbb9878ba495baeafd90c749a94a4012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 70/86] fix: config: a malformed line before LOGFILE sent the
 log to the default file, the rest of overlong lines was taken as lines,
 quoted arguments after quoted keywords

---
 src/common/config.c   | 86 +++++++++++++++++++++++++++++++------------
 src/common/strtok_r.c |  3 ++
 2 files changed, 65 insertions(+), 24 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index 6024add..4d0e295 100644
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -382,9 +382,14 @@ long cf_lineno_set(long n)
 char *cf_getline(char *buffer, int len, FILE * fp)
 {
     char *p;
+    int c;
 
     while (fgets(buffer, len, fp)) {
         cf_lineno++;
+        if (strlen(buffer) == len - 1 && buffer[len - 2] != '\n') {
+            /* Too long, the rest isn't another line */
+            while ((c = getc(fp)) != EOF && c != '\n') ;
+        }
         strip_crlf(buffer);
         for (p = buffer; *p && is_space(*p); p++) ; /* Skip white spaces */
         if (*p != '#')
@@ -393,6 +398,34 @@ char *cf_getline(char *buffer, int len, FILE * fp)
     return NULL;
 }
 
+/*
+ * Messages about the config, kept until it's complete: writing to the log
+ * sets LOGFILE and LOGDIR for good
+ */
+static Textlist cf_msgs;
+static int cf_depth = 0;
+
+static void cf_log(const char *fmt, ...)
+{
+    char msg[MAXPATH];
+    va_list args;
+
+    va_start(args, fmt);
+    vsnprintf(msg, sizeof(msg), fmt, args);
+    va_end(args);
+
+    tl_append(&cf_msgs, msg);
+}
+
+static void cf_log_flush(void)
+{
+    Textline *p;
+
+    for (p = cf_msgs.first; p; p = p->next)
+        fglog("%s", p->line);
+    tl_clear(&cf_msgs);
+}
+
 /*
  * Process line from config file
  */
@@ -409,7 +442,7 @@ static void cf_do_line(char *line)
     if (!stricmp(keyword, "include")) {
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing include file");
+            cf_log("config: missing include file");
             return;
         }
         cf_read_config_file(p);
@@ -418,7 +451,7 @@ static void cf_do_line(char *line)
     else if (!stricmp(keyword, "hostname")) {
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing hostname");
+            cf_log("config: missing hostname");
             return;
         }
         BUF_COPY(scf_hostname, p);
@@ -427,7 +460,7 @@ static void cf_do_line(char *line)
     else if (!stricmp(keyword, "domain")) {
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing domainname");
+            cf_log("config: missing domainname");
             return;
         }
         if (p[0] != '.')
@@ -441,7 +474,7 @@ static void cf_do_line(char *line)
     else if (!stricmp(keyword, "hostsdomain")) {
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing domainname");
+            cf_log("config: missing domainname");
             return;
         }
         if (p[0] != '.')
@@ -454,11 +487,11 @@ static void cf_do_line(char *line)
         /* address */
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing address");
+            cf_log("config: missing address");
             return;
         }
         if (asc_to_node(p, &a, FALSE) == ERROR) {
-            fglog("config: illegal address %s", p);
+            cf_log("config: illegal address %s", p);
             return;
         }
 
@@ -467,17 +500,17 @@ static void cf_do_line(char *line)
             scf_addr[scf_ia].addr = a;
             scf_ia++;
         } else
-            fglog("config: too many addresses");
+            cf_log("config: too many addresses");
     }
     /***** uplink *******************************************************/
     else if (!stricmp(keyword, "uplink")) {
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing address");
+            cf_log("config: missing address");
             return;
         }
         if (asc_to_node(p, &a, FALSE) == ERROR) {
-            fglog("config: illegal address %s", p);
+            cf_log("config: illegal address %s", p);
             return;
         }
 
@@ -485,17 +518,17 @@ static void cf_do_line(char *line)
             scf_addr[scf_ir].uplink = a;
             scf_ir++;
         } else
-            fglog("config: too many addresses");
+            cf_log("config: too many addresses");
     }
     /***** GateAddress **************************************************/
     else if (!stricmp(keyword, "gateaddress")) {
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing address");
+            cf_log("config: missing address");
             return;
         }
         if (asc_to_node(p, &a, FALSE) == ERROR) {
-            fglog("config: illegal address %s", p);
+            cf_log("config: illegal address %s", p);
             return;
         }
 
@@ -503,7 +536,7 @@ static void cf_do_line(char *line)
             scf_addr[scf_ig].gateaddr = a;
             scf_ig++;
         } else
-            fglog("config: too many addresses");
+            cf_log("config: too many addresses");
     }
     /***** zone *********************************************************/
     else if (!stricmp(keyword, "zone")) {
@@ -511,12 +544,12 @@ static void cf_do_line(char *line)
         char *inet, *ftn, *out;
 
         if (scf_nzones >= MAXADDRESS) {
-            fglog("config: too many zones");
+            cf_log("config: too many zones");
             return;
         }
 
         if (!(p = xstrtok(NULL, " \t"))) {
-            fglog("config: missing zone");
+            cf_log("config: missing zone");
             return;
         }
         if (!stricmp(p, "default"))
@@ -524,23 +557,23 @@ static void cf_do_line(char *line)
         else {
             zone = atoi(p);
             if (!zone) {
-                fglog("config: illegal zone value %s", p);
+                cf_log("config: illegal zone value %s", p);
                 return;
             }
         }
 
         if (!(inet = xstrtok(NULL, " \t"))) {
-            fglog("config: missing Internet domain");
+            cf_log("config: missing Internet domain");
             return;
         }
 
         if (!(ftn = xstrtok(NULL, " \t"))) {
-            fglog("config: missing FTN domain");
+            cf_log("config: missing FTN domain");
             return;
         }
 
         if (!(out = xstrtok(NULL, " \t"))) {
-            fglog("config: missing outbound directory");
+            cf_log("config: missing outbound directory");
             return;
         }
 
@@ -555,15 +588,15 @@ static void cf_do_line(char *line)
         char *drive, *path;
 
         if (scf_ndos >= MAXDOSDRIVE) {
-            fglog("config: too many DOS drives");
+            cf_log("config: too many DOS drives");
             return;
         }
         if (!(drive = xstrtok(NULL, " \t"))) {
-            fglog("config: missing DOS drive");
+            cf_log("config: missing DOS drive");
             return;
         }
         if (!(path = xstrtok(NULL, " \t"))) {
-            fglog("config: missing UNIX path");
+            cf_log("config: missing UNIX path");
             return;
         }
 
@@ -575,11 +608,11 @@ static void cf_do_line(char *line)
     else if (!stricmp(keyword, "gateway")) {
         p = xstrtok(NULL, " \t");
         if (!p) {
-            fglog("config: missing address");
+            cf_log("config: missing address");
             return;
         }
         if (asc_to_node(p, &a, FALSE) == ERROR) {
-            fglog("config: illegal address %s", p);
+            cf_log("config: illegal address %s", p);
             return;
         }
         scf_gateway = a;
@@ -620,8 +653,10 @@ void cf_read_config_file(char *name)
 
     cf = xfopen(name, R_MODE_T);
 
+    cf_depth++;
     while ((line = cf_getline(buffer, BUFFERSIZE, cf)))
         cf_do_line(line);
+    cf_depth--;
 
     scf_naddr = scf_ia;
     scf_zone = scf_addr[0].zone;
@@ -632,6 +667,9 @@ void cf_read_config_file(char *name)
     BUF_COPY2(scf_fqdn, scf_hostname, scf_domainname);
 
     fclose(cf);
+
+    if (cf_depth == 0)
+        cf_log_flush();
 }
 
 /*
diff --git a/src/common/strtok_r.c b/src/common/strtok_r.c
index 106792c..93d3a65 100644
--- a/src/common/strtok_r.c
+++ b/src/common/strtok_r.c
@@ -80,6 +80,9 @@ char *strtok_r_ext(char *s, const char *delim, char **lasts, int quote)
         }
         if (*s == quote)
             *s++ = 0;
+        /* Skip trailing delimiters */
+        while (*s && strchr(delim, *s))
+            s++;
         *lasts = s;
         s = p = tok;
         while (*s) {
-- 
2.43.0


From 863c228b61578eabdb737e082c8c5c02ac72f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 71/86] fix: crashes on malformed lines of routing, packing and
 area files (include without a file, unarc without arguments, blank lines)

---
 src/areafix/areafix.c |  2 ++
 src/common/routing.c  |  4 ++++
 src/toss/ftnpack.c    |  4 ++++
 src/toss/runinc.c     | 19 +++++++++++--------
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index d2f8379..25781e6 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1157,6 +1157,8 @@ int cmd_listall(Node * node)
                             continue;
                         f2 = xstrtok(buf, " \t");
                         f1 = xstrtok(NULL, "\n");
+                        if (!f2)
+                            continue;
 
                         find = FALSE;
                         if (hi_test(str_upper(f2)))
diff --git a/src/common/routing.c b/src/common/routing.c
index 16c3621..172d16f 100644
--- a/src/common/routing.c
+++ b/src/common/routing.c
@@ -353,6 +353,10 @@ static Routing *routing_parse_line(char *buf)
     /* Include command */
     if (strieq(p, "include")) {
         p = xstrtok(NULL, " \t");
+        if (!p) {
+            fglog("routing: missing include file");
+            return NULL;
+        }
         routing_do_file(p);
         return NULL;
     }
diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 32ae6d3..247c873 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -197,6 +197,10 @@ Packing *packing_parse_line(char *buf)
         return NULL;
     if (strieq(p, "include")) {
         p = xstrtok(NULL, " \t");
+        if (!p) {
+            fglog("packing: missing include file");
+            return NULL;
+        }
         packing_do_file(p);
         return NULL;
     }
diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 0a44707..9312ea5 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -319,27 +319,30 @@ Unpacking *unpacking_parse_line(char *buf1)
         return NULL;
 
     /* Create new entry and put into list */
-    r = (Unpacking *) xmalloc(sizeof(Unpacking));
     f = xstrtok(NULL, " \t");
     p = xstrtok(NULL, " \t");
-    if (p && f) {
-        r->name = strsave(f);
-        f = strsave(p);
+    if (!f || !p) {
+        fglog("packing: missing argument for unarc definition");
+        return NULL;
     }
+    r = (Unpacking *) xmalloc(sizeof(Unpacking));
+    r->name = strsave(f);
+    f = strsave(p);
     if (!strstr(f, "0x"))
         r->iden = f;
     else {
-        r->iden = xmalloc(strlen(f));
+        r->iden = xmalloc(strlen(f) + 1);
         while (*f) {
             /* Recode hex chars */
-            if (*f == '0' && f[1] == 'x') {
+            if (*f == '0' && f[1] == 'x' && isxdigit((unsigned char)f[2]) &&
+                isxdigit((unsigned char)f[3])) {
                 if (f[2] > 58)
-                    n = f[2] - 87;
+                    n = tolower(f[2]) - 87;
                 else
                     n = f[2] - 48;
                 n *= 16;
                 if (f[3] > 58)
-                    n += f[3] - 87;
+                    n += tolower(f[3]) - 87;
                 else
                     n += f[3] - 48;
 
-- 
2.43.0


From 807ab18b738aa9794694084f5b7f94456fc89aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 72/86] fix: config: keep messages about malformed lines
 without the text list functions

---
 src/common/config.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index 4d0e295..191c49f 100644
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -402,28 +402,38 @@ char *cf_getline(char *buffer, int len, FILE * fp)
  * Messages about the config, kept until it's complete: writing to the log
  * sets LOGFILE and LOGDIR for good
  */
-static Textlist cf_msgs;
+static cflist *cf_msgs = NULL;
 static int cf_depth = 0;
 
 static void cf_log(const char *fmt, ...)
 {
     char msg[MAXPATH];
     va_list args;
+    cflist *p, **pp;
 
     va_start(args, fmt);
     vsnprintf(msg, sizeof(msg), fmt, args);
     va_end(args);
 
-    tl_append(&cf_msgs, msg);
+    p = (cflist *) xmalloc(sizeof(cflist));
+    p->key = NULL;
+    p->string = strsave(msg);
+    p->next = NULL;
+
+    for (pp = &cf_msgs; *pp; pp = &(*pp)->next) ;
+    *pp = p;
 }
 
 static void cf_log_flush(void)
 {
-    Textline *p;
+    cflist *p;
 
-    for (p = cf_msgs.first; p; p = p->next)
-        fglog("%s", p->line);
-    tl_clear(&cf_msgs);
+    while ((p = cf_msgs)) {
+        cf_msgs = p->next;
+        fglog("%s", p->string);
+        xfree(p->string);
+        xfree(p);
+    }
 }
 
 /*
-- 
2.43.0


From ae6d0585f7f8b711ae2f8e1035c0e9372e8e0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 73/86] fix: parsedate: local time by the zone rules of the
 date itself, leap years and dates after 2037, dates without a year, relative
 dates before 1970

---
 src/common/parsedate.y | 70 ++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/common/parsedate.y b/src/common/parsedate.y
index 8c85283..c0f346d 100644
--- a/src/common/parsedate.y
+++ b/src/common/parsedate.y
@@ -58,11 +58,12 @@ static int date_lex(void);
 
 
 
-    /* See the LeapYears table in Convert. */
 #define EPOCH		1970
-#define END_OF_TIME	2038
-    /* Limit of relative dates, beyond it localtime() fails. */
-#define TIME_LIMIT	(10000L * 366L * SECSPERDAY)
+    /* Last year, no dates beyond it (nor what time_t can't hold) */
+#define END_OF_TIME	(sizeof(time_t) > 4 ? 2099 : 2037)
+    /* Limit of relative dates */
+#define TIME_LIMIT	((time_t)(END_OF_TIME + 1 - EPOCH) * 366 * SECSPERDAY)
+#define IS_LEAP(y)	((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0))
     /* Constants for general time calculations. */
 #define DST_OFFSET	1
 #define SECSPERDAY	(24L * 60L * 60L)
@@ -521,46 +522,50 @@ Convert(time_t Month, time_t Day, time_t Year, time_t Hours, time_t Minutes, tim
     static int	DaysLeap[13] = {
 	0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31
     };
-    static int	LeapYears[] = {
-	1972, 1976, 1980, 1984, 1988, 1992, 1996,
-	2000, 2004, 2008, 2012, 2016, 2020, 2024, 2028, 2032, 2036
-    };
-    register int	*yp;
     register int	*mp;
+    struct tm		tm;
     register time_t	Julian;
     register int	i;
     time_t		tod;
 
     if (Year < 0)
 	Year = -Year;
-    if (Year < 100)
-	Year += 1900;
-    if (Year < EPOCH)
-	Year += 100;
-    for (mp = DaysNormal, yp = LeapYears; yp < ENDOF(LeapYears); yp++)
-	if (Year == *yp) {
-	    mp = DaysLeap;
-	    break;
-	}
+    /* 70 = 1970, 69 = 2069, 124 = 2024 (years since 1900) */
+    if (Year < 1000)
+	Year += (Year < EPOCH - 1900) ? 2000 : 1900;
+    mp = IS_LEAP(Year) ? DaysLeap : DaysNormal;
     if (Year < EPOCH || Year > END_OF_TIME
      || Month < 1 || Month > 12
      /* NOSTRICT *//* conversion from long may lose accuracy */
      || Day < 1 || Day > mp[(int)Month])
 	return -1;
 
+    if ((tod = ToSeconds(Hours, Minutes, Seconds, Meridian)) < 0)
+	return -1;
+
+    if (dst == DSTmaybe) {
+	/* No zone, local time */
+	memset(&tm, 0, sizeof(tm));
+	tm.tm_year = Year - 1900;
+	tm.tm_mon = Month - 1;
+	tm.tm_mday = Day;
+	tm.tm_hour = tod / 3600;
+	tm.tm_min = tod / 60 % 60;
+	tm.tm_sec = tod % 60;
+	tm.tm_isdst = -1;
+	return mktime(&tm);
+    }
+
     Julian = Day - 1 + (Year - EPOCH) * 365;
-    for (yp = LeapYears; yp < ENDOF(LeapYears); yp++, Julian++)
-	if (Year <= *yp)
-	    break;
+    for (i = EPOCH; i < Year; i++)
+	if (IS_LEAP(i))
+	    Julian++;
     for (i = 1; i < Month; i++)
 	Julian += *++mp;
     Julian *= SECSPERDAY;
     Julian += yyTimezone * 60L;
-    if ((tod = ToSeconds(Hours, Minutes, Seconds, Meridian)) < 0)
-	return -1;
     Julian += tod;
-    tod = Julian;
-    if (dst == DSTon || (dst == DSTmaybe && localtime(&tod)->tm_isdst))
+    if (dst == DSTon)
 	Julian -= DST_OFFSET * 60 * 60;
     return Julian;
 }
@@ -768,13 +773,12 @@ parsedate(char *p, TIMEINFO *now)
 	(void)GetTimeInfo(&ti);
     }
 
-    tm = localtime(&now->time);
+    if ((tm = localtime(&now->time)) == NULL)
+	return -1;
     yyYear = tm->tm_year;
     yyMonth = tm->tm_mon + 1;
     yyDay = tm->tm_mday;
-    yyTimezone = now->tzone;
-    if(tm->tm_isdst)			/* Correct timezone offset for DST */
-	yyTimezone += DST_OFFSET * 60;
+    yyTimezone = 0;
     yyDSTmode = DSTmaybe;
     yyHour = 0;
     yyMinutes = 0;
@@ -802,16 +806,14 @@ parsedate(char *p, TIMEINFO *now)
     }
 
     Start += yyRelSeconds;
-    if (Start < -TIME_LIMIT || Start > TIME_LIMIT)
+    if (Start < 0 || Start > TIME_LIMIT)
 	return -1;
     if (yyRelMonth)
 	Start += RelativeMonth(Start, yyRelMonth);
-    if (Start < -TIME_LIMIT || Start > TIME_LIMIT)
+    if (Start < 0 || Start > TIME_LIMIT)
 	return -1;
 
-    /* Have to do *something* with a legitimate -1 so it's distinguishable
-     * from the error return value.  (Alternately could set errno on error.) */
-    return Start == -1 ? 0 : Start;
+    return Start;
 }
 
 
-- 
2.43.0


From 5f521fa2c3e6b0c364a3860f19bc5b2d9287ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 74/86] fix: dates printed with the present's zone offset,
 dates passed on or gated shifted by DST, TZUTC -0001 and malformed TZUTC,
 unreadable dates gated as INVALID

---
 src/common/date.c        | 118 ++++++++++++++++++++++++---------------
 src/common/log.c         |   2 +-
 src/common/packet.c      |  25 ++++++++-
 src/gate/ftn2rfc.c       |  27 +++------
 src/gate/rfc2ftn.c       |  34 ++---------
 src/include/constants.h  |   5 ++
 src/include/packet.h     |   2 +
 src/include/prototypes.h |   2 +-
 8 files changed, 118 insertions(+), 97 deletions(-)

diff --git a/src/common/date.c b/src/common/date.c
index 644419a..78ccddc 100644
--- a/src/common/date.c
+++ b/src/common/date.c
@@ -56,52 +56,83 @@ static char *get_tz_name(struct tm *tm)
 #endif
 }
 
-/* Converts tz string to tz offset in minutes */
-time_t date_tz_str_to_time(char *tz_str)
+/*
+ * Converts tz string ([+-]HHMM, may be followed by a blank and the name of
+ * the zone) to tz offset in minutes
+ */
+int date_tz_str_to_time(char *tz_str, long *tz)
 {
-    unsigned hours;
-    unsigned mins;
+    char *p = tz_str;
     long mult = 1;               /* or -1 */
-    int rc;
+    long hours;
+    long mins;
 
     if (tz_str == NULL)
-        goto out;
+        return ERROR;
 
-    if (tz_str[0] == '+') {     /* should not be */
-        tz_str++;
-    } else if (tz_str[0] == '-') {
+    if (*p == '+') {            /* should not be */
+        p++;
+    } else if (*p == '-') {
         mult = -1;
-        tz_str++;
+        p++;
     }
 
-    rc = sscanf(tz_str, "%02u%02u", &hours, &mins);
-    if (rc != 2) {
-        fglog("WARNING: could not parse TZUTC: %s", tz_str);
-        goto out;
-    }
+    if (strspn(p, "0123456789") != 4 || (p[4] && !isspace((unsigned char)p[4])
+                                         && p[4] != '('))
+        goto err;
 
-    return mult * (hours * 60 + mins);
+    hours = (p[0] - '0') * 10 + p[1] - '0';
+    mins = (p[2] - '0') * 10 + p[3] - '0';
+    /* there is nothing beyond UTC+14 */
+    if (hours > 14 || mins > 59)
+        goto err;
 
-out:
-    return -1;
+    *tz = mult * (hours * 60 + mins);
+    return OK;
+
+ err:
+    fglog("WARNING: could not parse TZUTC: %s", tz_str);
+    return ERROR;
+}
 
+/*
+ * Difference UTC - local time in minutes at the given time
+ */
+static long date_local_tz(time_t t)
+{
+    struct tm *tm;
+    struct tm local;
+    long days;
+
+    if ((tm = localtime(&t)) == NULL)
+        return 0;
+    local = *tm;
+    if ((tm = gmtime(&t)) == NULL)
+        return 0;
+
+    if (tm->tm_year != local.tm_year)
+        days = tm->tm_year - local.tm_year;
+    else
+        days = tm->tm_yday - local.tm_yday;
+
+    return (days * 24 + tm->tm_hour - local.tm_hour) * 60 +
+        tm->tm_min - local.tm_min;
 }
 
 /* Format date/time with TZ info from ^ATZUTC kludge */
 char *date_tz(char *fmt, time_t * t, char *tz_str)
 {
     static char buf[128];
-    long tz = -1;
-
-    /* on error returns -1 which is default flag for date_buf() */
-    tz = date_tz_str_to_time(tz_str);
+    long tz;
 
     /*
      * minus since TIMEINFO keeps difference = UTC - local,
      * while local = UTC + TZUTC => TZUTC = local - UTC
      */
-    if (tz != -1)
+    if (date_tz_str_to_time(tz_str, &tz) == OK)
 	tz = -tz;
+    else
+	tz = DATE_TZ_LOCAL;
 
     return date_buf(buf, sizeof(buf), fmt, t, tz);
 }
@@ -114,7 +145,7 @@ char *date(char *fmt, time_t * t)
     return date_tz(fmt, t, NULL);
 }
 
-/* @tz in minutes */
+/* @tz in minutes, DATE_TZ_LOCAL for local time */
 char *date_buf(char *buf, size_t len, char *fmt, time_t * t, long tz)
 {
     TIMEINFO ti;
@@ -143,8 +174,8 @@ char *date_buf(char *buf, size_t len, char *fmt, time_t * t, long tz)
 
     if (t)
         ti.time = *t;
-    if (tz != -1)
-        ti.tzone = tz;
+    /* the offset of local time is that of the time printed, not the present */
+    ti.tzone = (tz != DATE_TZ_LOCAL) ? tz : date_local_tz(ti.time);
 
     adjusted_time = ti.time - (ti.tzone * 60);
     tm = gmtime(&adjusted_time);
@@ -242,7 +273,10 @@ char *date_buf(char *buf, size_t len, char *fmt, time_t * t, long tz)
                 s = sbuf;
                 break;
             case 'Z':          /* Time zone */
-                s = get_tz_name(tm);
+                if (tz == DATE_TZ_LOCAL)
+                    s = get_tz_name(localtime(&ti.time));
+                else
+                    s = get_tz_name(tm);
                 break;
         /***** Additional %O format *****/
             case 'N':          /* Time diff to TZUTC */
@@ -296,32 +330,26 @@ char *date_buf(char *buf, size_t len, char *fmt, time_t * t, long tz)
 char *date_rfc_tz(char *rfc_date)
 {
     char *p;
+    char *end;
 
     if (rfc_date == NULL)
 	return NULL;
 
-    p = strrchr(rfc_date, ' ');
-    if (p == NULL)
+    /* last word before comments */
+    end = rfc_date + strcspn(rfc_date, "(");
+    while (end > rfc_date && isspace((unsigned char)end[-1]))
+	end--;
+    for (p = end; p > rfc_date && !isspace((unsigned char)p[-1]); p--)
+	;
+
+    if (p == rfc_date)
 	return NULL;
 
-    if ((p[1] == '+') || (p[1] == '-'))
-	return p + 1;
+    if (*p == '+' || *p == '-')
+	return p;
 
-    if (strneq(p + 1, "GMT", sizeof("GMT") - 1)
-	|| strneq(p + 1, "UTC", sizeof("UTC") - 1))
+    if (end - p == 3 && (strneq(p, "GMT", 3) || strneq(p, "UTC", 3)))
 	return "+0000";
 
-    /* second word */
-    for (p--; p > rfc_date; p--) {
-	if (*p  == ' ')
-	    break;
-    }
-
-    if (*p != ' ')
-	return NULL;
-
-    if ((p[1] == '+') || (p[1] == '-'))
-	return p + 1;
-
     return NULL;
 }
diff --git a/src/common/log.c b/src/common/log.c
index 593ad9d..400a201 100644
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -284,7 +284,7 @@ static void log_print(FILE * stream, char *name, int err,
     char buf[32];
 
     fprintf(stream, "%s %s ",
-            date_buf(buf, sizeof(buf), DATE_LOG, NULL, -1), name);
+            date_buf(buf, sizeof(buf), DATE_LOG, NULL, DATE_TZ_LOCAL), name);
     vfprintf(stream, *fmt == '$' ? fmt + 1 : fmt, args);
     if (*fmt == '$')
         fprintf(stream, " (errno=%d: %s)", err, strerror(err));
diff --git a/src/common/packet.c b/src/common/packet.c
index fba36b3..42afa41 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -520,9 +520,10 @@ size_t pkt_get_string(FILE * fp, char *buf, size_t nbytes)
  *
  * Understood formats: see FTS-0001 (actually using getdate.y parser)
  */
-time_t pkt_get_date(FILE * fp)
+static time_t pkt_get_ftn_date(FILE * fp, time_t * ftn_date)
 {
     char buf[MSG_MAXDATE + 1];
+    char zbuf[MSG_MAXDATE + 16];
     size_t len;
 
     /*
@@ -547,9 +548,23 @@ time_t pkt_get_date(FILE * fp)
               buf);
     }
 
+    if (ftn_date) {
+        /* the same with a zone; not in the gap of a local DST switch */
+        str_copy(zbuf, sizeof(zbuf), buf);
+        str_append(zbuf, sizeof(zbuf), " +0000");
+        *ftn_date = parsedate(zbuf, NULL);
+        if (*ftn_date == -1)
+            *ftn_date = 0;
+    }
+
     return parsedate(buf, NULL);
 }
 
+time_t pkt_get_date(FILE * fp)
+{
+    return pkt_get_ftn_date(fp, NULL);
+}
+
 #define READ_MSG_FIELD(fp, s, f, strict) do {					\
     size_t rc;								\
     size_t limit = f ## _limit;						\
@@ -577,7 +592,7 @@ int pkt_get_msg_hdr(FILE * fp, Message * msg, bool strict)
     msg->node_orig = msg->node_from;
     msg->attr = pkt_get_int16(fp);
     msg->cost = pkt_get_int16(fp);
-    msg->date = pkt_get_date(fp);
+    msg->date = pkt_get_ftn_date(fp, &msg->ftn_date);
 
     READ_MSG_FIELD(fp, msg, name_to, strict);
     READ_MSG_FIELD(fp, msg, name_from, strict);
@@ -745,7 +760,11 @@ int pkt_put_msg_hdr(FILE * pkt, Message * msg, int kludge_flag)
     pkt_put_int16(pkt, msg->attr);
     pkt_put_int16(pkt, msg->cost);
 
-    pkt_put_date(pkt, msg->date, msg->tz);
+    /* a date which came from a packet goes out as it was */
+    if (msg->tz == NULL && msg->ftn_date != 0)
+        pkt_put_date(pkt, msg->ftn_date, "0000");
+    else
+        pkt_put_date(pkt, msg->date, msg->tz);
 
     pkt_msg_sanitize_strings(msg);
 
diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 551351e..8115f58 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -874,30 +874,19 @@ static char *charset_from_kludge(MsgBody * body)
  * Since ftn date is local, adjust it according to the tz info
  * (and save it to Message as well)
  *
- * Use local timezone if cannot parse/unexisted TZUTC
- * It breaks invariant that msg.date is always in UTC, but keeps it
- * compatible with the old code.
+ * Without (parsable) TZUTC it is taken for local time of this system.
+ * Unparsable date is replaced with the current time.
  */
 static void msg_adjust_date_to_tz(Message *msg, char *tz_str)
 {
-    time_t tz;
-    TIMEINFO ti = { 0 };
+    long tz;
 
-    /* date_tz_str_to_time() returns minutes */
-    tz = date_tz_str_to_time(tz_str);
-    if (tz == -1) {
-	tz = 0;
-    } else {
-	/*
-	 * pkt_get_date() uses parsedate() in a way that it adds local
-	 * timezone offset, adjust to it as well.
-	 */
-	GetTimeInfo(&ti);
-    }
-
-    /* local = UTC + TZUTC => UTC = local - TZUTC */
+    if (msg->date == -1)
+	msg->date = time(NULL);
+    else if (msg->ftn_date != 0 && date_tz_str_to_time(tz_str, &tz) == OK)
+	/* local = UTC + TZUTC => UTC = local - TZUTC */
+	msg->date = msg->ftn_date - tz * 60;
 
-    msg->date -= (tz + ti.tzone + (ti.isdst * 60)) * 60;
     msg->tz = tz_str;
 }
 
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index b85ab48..c853464 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -853,33 +853,11 @@ static void determine_charsets(RFCHeader *h, Area *parea, struct charset_info *i
         i->ftn_level = 2;
 }
 
-static void rfc2ftn_add_tzutc(FILE *f, char *tz)
+static void rfc2ftn_add_tzutc(FILE *f, Message *msg)
 {
-    char tz_buf[6]; /* -XXXX\0 */
-    size_t len;
-
-    fprintf(f, "\001TZUTC: ");
-
-    if (tz == NULL)
-	goto fallback;
-
-    len = sizeof (tz_buf);
-
-    if (*tz == '+') {
-	tz++;
-	len--;
-    }
-
-    if (strspn(*tz == '-' ? tz + 1 : tz, "0123456789") != 4)
-	goto fallback;
-
-    /* tz may contain tz name from rfc, cut it */
-    snprintf(tz_buf, len, "%s", tz);
-    fprintf(f, "%4s\r", tz_buf);
-    return;
-
-fallback:
-    fprintf(f, "%s\r", date("%N", NULL));
+    /* zone in which the date of the message is written */
+    fprintf(f, "\001TZUTC: %s\r",
+            date_tz("%N", msg->date != -1 ? &msg->date : NULL, msg->tz));
 }
 
 static char last_char(char *s)
@@ -1229,7 +1207,7 @@ static int snd_message(Message * msg, Area * parea,
     }
 
     if (tzutc_kludge)
-	rfc2ftn_add_tzutc(sf, msg->tz);
+	rfc2ftn_add_tzutc(sf, msg);
 
 #ifdef PID_READER_TID_GTV
     if ((header = s_header_getcomplete(h, "User-Agent")))
@@ -1497,7 +1475,7 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
      * Date
      */
     msg.date = mail_date(h);
-    msg.tz = mail_tz(h);
+    msg.tz = msg.date != -1 ? mail_tz(h) : NULL;
     msg.cost = 0;
     msg.attr = 0;
 
diff --git a/src/include/constants.h b/src/include/constants.h
index a0448b2..506973e 100644
--- a/src/include/constants.h
+++ b/src/include/constants.h
@@ -233,6 +233,11 @@
 #endif                          /* FTS_VIA */
 #define DATE_SPLIT	"%d %b %y %H:%M:%S"
 
+/*
+ * Time zone argument of date_buf() for local time
+ */
+#define DATE_TZ_LOCAL	(-99999L)
+
 /*
  * Product code for packets generated by FIDOGATE, 0xfe is used because
  * this code is reserved for new products, when the code numbers ran out.
diff --git a/src/include/packet.h b/src/include/packet.h
index 0b4e673..9c69394 100644
--- a/src/include/packet.h
+++ b/src/include/packet.h
@@ -100,6 +100,8 @@ typedef struct {
     int attr;                   /* Attribute flags */
     int cost;                   /* Cost */
     time_t date;                /* Date, seconds from 1970-01-01 UTC */
+    time_t ftn_date;            /* Date as written in the packet (local time of
+                                   the sender) as if it were UTC, 0 = none */
     char *tz;			/* Keep timezone info */
     char name_to[NAMEBUFSIZE];  /* To name */
     char name_from[NAMEBUFSIZE];    /* From name */
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 32a7c41..947b27f 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -242,7 +242,7 @@ char *date(char *, time_t *);
 char *date_buf(char *, size_t, char *, time_t *, long);
 char *date_tz(char *, time_t *, char *);
 char *date_rfc_tz(char *);
-time_t date_tz_str_to_time(char *);
+int date_tz_str_to_time(char *, long *);
 
 
 /* dir.c */
-- 
2.43.0


From 940acbf75bfbb8be4863b374fd467e6708afce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 75/86] fix: attaching after an unfinished last line, or names
 with line breaks, corrupted the flow file

---
 src/common/binkley.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 7330598..9c0c241 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -307,12 +307,18 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     off_t size;
     ssize_t len;
     char entry[MAXPATH + 8];
+    char last;
     static char buf[MAXPATH];
 
     if (mode)
         debug(4, "attach mode=%c (^=delete, #=trunc)", mode);
     debug(4, "attach name=%s", name);
 
+    if (strpbrk(name, "\r\n")) {
+        fglog("can't attach file with line break in its name: %s", name);
+        return ERROR;
+    }
+
     if (cf_dos()) {             /* MSDOS translation enabled? */
         n = cf_dos_xlate(name);
         if (!n) {
@@ -361,9 +367,15 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
         else
             snprintf(entry, sizeof(entry), "%s%s", n,
                      cf_dos()? "\r\n" : "\n");
+        /* The last line may lack its end */
+        size = lseek(fileno(fp), 0, SEEK_END);
+        if (size > 0 && pread(fileno(fp), &last, 1, size - 1) == 1
+            && last != '\n') {
+            memmove(entry + 1, entry, strlen(entry) + 1);
+            entry[0] = '\n';
+        }
         /* Unbuffered, an incomplete entry must not be left behind */
         len = strlen(entry);
-        size = lseek(fileno(fp), 0, SEEK_END);
         if (size == -1 || write(fileno(fp), entry, len) != len) {
             fglog("$writing FLO file node %s failed", znfp1(node));
             if (size != -1 && ftruncate(fileno(fp), size) == -1)
-- 
2.43.0


From ca3f6907d135698bd8dafe27aebfd9303950eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 76/86] fix: ftnflo: listing or -n deleted flow files, --list
 took an argument, crash on names outside DOS drives, exit status of failed
 commands

---
 src/util/ftnflo.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/util/ftnflo.c b/src/util/ftnflo.c
index 8046f58..54e4bd8 100644
--- a/src/util/ftnflo.c
+++ b/src/util/ftnflo.c
@@ -53,10 +53,11 @@ int x_flag = FALSE;
 int do_flo(Node * node)
 {
     int mode, ret, del_ok, fd;
-    char *line;
+    char *line, *unix_name;
     char buf[MAXPATH];
 
-    del_ok = TRUE;
+    /* Only executing completes the entries, listing doesn't */
+    del_ok = x_flag && !n_flag;
 
     /* Open FLO file */
     if (flo_open(node, TRUE) == ERROR) {
@@ -71,8 +72,11 @@ int do_flo(Node * node)
         mode = ' ';
         if (*line == '^' || *line == '#')
             mode = *line++;
-        if (cf_dos())
-            line = cf_unix_xlate(line);
+        if (cf_dos()) {
+            unix_name = cf_unix_xlate(line);
+            if (unix_name)
+                line = unix_name;
+        }
 
         debug(2, "FLO entry: %c %s", mode, line);
 
@@ -118,8 +122,7 @@ int do_flo(Node * node)
                 /* Mark as sent */
                 flo_mark();
             }
-        } else
-            del_ok = FALSE;
+        }
     }
 
     /* Close and delete if completed FLO file */
@@ -162,12 +165,13 @@ int main(int argc, char **argv)
     char *B_flag = NULL;
     char *c_flag = NULL;
     Node node;
+    int ret = 0;
 
     int option_index;
     static struct option long_options[] = {
         {"binkley", 1, 0, 'B'}, /* Binkley outbound base dir */
         {"exec", 1, 0, 'x'},    /* Execute script */
-        {"list", 1, 0, 'l'},    /* List entries */
+        {"list", 0, 0, 'l'},    /* List entries */
         {"no-delete", 0, 0, 'n'},   /* Don't delete/truncate entries */
 
         {"verbose", 0, 0, 'v'}, /* More verbose */
@@ -248,9 +252,10 @@ int main(int argc, char **argv)
                     PROGRAM, argv[optind]);
             continue;
         }
-        do_flo(&node);
+        if (do_flo(&node) == ERROR)
+            ret = 1;
     }
 
     exit_free();
-    return 0;
+    return ret;
 }
-- 
2.43.0


From 4b5142a9750862d051ab18246c6b7154a9547c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 77/86] fix: parts of a split message with a converted FTN
 Message-ID all got the same MSGID

---
 src/common/msgid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index accbdeb..a8e7e24 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -406,7 +406,7 @@ char *s_msgid_rfc_to_fido(int *origid_flag, char *message_id,
     }   /**if(!split)**/
 
         /***** Check for new-style <MSGID_mimeanything@domain> *****/
-    if (!strncmp(id, "MSGID_", 6)) {
+    if (!strncmp(id, "MSGID_", 6) && (!split || part == 1)) {
         p = id + strlen("MSGID_");
         tmps = tmps_alloc(strlen(id) + 1);
         mime_dequote(tmps->s, tmps->len, p);
-- 
2.43.0


From c981c693e5efec954a229d54e38fb6d764f18d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 78/86] fix: ftnafpkt: the last line of an answer was lost when
 it was the only line of a further message

---
 src/areafix/ftnafpkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 8e3b5fd..2653b8f 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -122,7 +122,7 @@ int do_netmail(Message * msg, MsgBody * body)
         } else {
             if (outpkt_netmail(&outmsg, &tmp, PROGRAM, NULL, NULL))
                 return ERROR;
-            ln = 0;
+            ln = 1;
             tl_clear(&tmp);
             if (!tp)
                 break;
-- 
2.43.0


From c5851b562366aead115191cde6ecd54ba2b6ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:08 +0000
Subject: [PATCH 79/86] fix: ftnafutil -n sent requests to uplinks and removed
 newsgroups

---
 src/areafix/ftnafutil.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index c34a3d0..2496ce7 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -109,6 +109,9 @@ void rm_group(char *area, Node * uplink)
     Active *p;
     Area *ar;
 
+    if (n_flag)
+        return;
+
 #ifndef SN
     active_init();
 #endif
@@ -591,7 +594,7 @@ int main(int argc, char **argv)
     if (do_cmd(argv + optind) == ERROR)
         ret = EX_DATAERR;
 
-    if (req.n > 0)
+    if (req.n > 0 && !n_flag)
         send_request(&req);
 
     if (ret == 0 && !n_flag)
-- 
2.43.0


From 85d0e105ca898e8b53720c2664d5811921a050a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:08 +0000
Subject: [PATCH 80/86] fix: areafix: only the first AvailFile was sent after
 the first avail command

---
 src/areafix/areafix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 25781e6..4818930 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1348,6 +1348,9 @@ int cmd_list(Node * node, int flag) /* FALSE -> %avail; TRUE -> %list */
         char *n;
         FILE *fp;
         int first = TRUE;
+
+        /* the string belongs to the config */
+        s = strsave(s);
         while ((n = xstrtok(first ? s : NULL, ",")) != NULL) {
             first = FALSE;
             fp = fopen_expand_name(n, R_MODE_T, FALSE);
@@ -1356,7 +1359,9 @@ int cmd_list(Node * node, int flag) /* FALSE -> %avail; TRUE -> %list */
             while (cf_getline(buffer, BUFFERSIZE, fp)) {
                 areafix_printf("%s", buffer);
             }
+            fclose(fp);
         }
+        xfree(s);
     }
 
 #endif                          /* AF_AVAIL */
-- 
2.43.0


From 84ca806bef0f6756cb6668d9e41a43c11cca18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 81/86] fix: requests and notifications for one node were sent
 as one message to the first addressee

---
 src/areafix/areafix.c | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 4818930..4f8331f 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2172,6 +2172,20 @@ static int tl_has(Textlist * list, char *s)
     return FALSE;
 }
 
+/*
+ * Text of a request, it follows the node, the names and the subject
+ */
+static char *request_text(char *line)
+{
+    int i;
+
+    for (i = 0; i < 4 && line; i++)
+        if ((line = strchr(line, ',')))
+            line++;
+
+    return line;
+}
+
 /*
  * Sending subscribe/unsubscribe requests to uplinks
  */
@@ -2194,21 +2208,20 @@ void send_request(Textlist * upl)
     while (1) {
         for (tl = upl->first; NULL != tl; tl = tl->next) {
             s = strsave(tl->line);
-            l = xstrtok(s, ",");
 
-            if (l) {
-                if (s) {
-                    if (!link && !tl_has(&links, l)) {
-                        link = strsave(l);
-                        tl_append(&links, link);
-                    }
-                    if (link && strcmp(l, link) == 0) {
-                        fglog("request %s", tl->line);
-                        tl_append(&out, tl->line);
-                    }
-                    xfree(s);
+            /* One message for the same node, names and subject */
+            if ((l = request_text(s))) {
+                *l = '\0';
+                if (!link && !tl_has(&links, s)) {
+                    link = strsave(s);
+                    tl_append(&links, link);
+                }
+                if (link && strcmp(s, link) == 0) {
+                    fglog("request %s", tl->line);
+                    tl_append(&out, tl->line);
                 }
             }
+            xfree(s);
         }
 
         if (!link)
@@ -2223,6 +2236,7 @@ void send_request(Textlist * upl)
         msg.cost = 0;
         msg.date = time(NULL);
         msg.area = NULL;
+        l = request_text(tl->line);
         asc_to_node(xstrtok(tl->line, ","), &tmp, FALSE);
         msg.node_to = tmp;
         BUF_COPY(msg.name_to, xstrtok(NULL, ","));
@@ -2231,14 +2245,12 @@ void send_request(Textlist * upl)
         cf_set_best(tmp.zone, tmp.net, tmp.node);
         msg.node_from = cf_n_addr();
 
-        l = xstrtok(NULL, ",");
         tl_appendf(&send, "\r\n%s", l);
 
         tl = tl->next;
 
         for (; tl != NULL; tl = tl->next) {
-            l = strrchr(tl->line, ',') + 1;
-            tl_append(&send, l);
+            tl_append(&send, request_text(tl->line));
         }
         outpkt_netmail(&msg, &send, areafix_name(), NULL, NULL);
 
-- 
2.43.0


From 1a2109d6f43cdce59ebaee3df24342ed45876682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 82/86] fix: ftntick: a TIC naming an area with blanks created
 another area

---
 src/tick/ftntick.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index c68efcd..a9cdd9e 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -360,6 +360,13 @@ int process_tic(Tick * tic)
                 return ERROR;
             }
 
+            /* fareas.bbs is split at blanks, no area can have such name */
+            if (!*tic->area || strpbrk(tic->area, " \t\"")) {
+                fglog("filearea name \"%s\" from %s invalid, not created",
+                      tic->area, znfp1(&tic->from));
+                return ERROR;
+            }
+
             if (filefix_check_forbidden_area(tic->area)) {
                 fglog("filearea %s is forbidden to create", tic->area);
                 /* Unknown filearea */
-- 
2.43.0


From df505b50835937ce5a198652fcf3e60e4d86c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 83/86] fix: ftntick: a TIC naming a directory as its file was
 accepted

---
 src/tick/ftntick.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index a9cdd9e..86a9317 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -921,6 +921,10 @@ int check_file(Tick * tic)
         fglog("$ERROR: can't stat() file %s", name);
         return ERROR;
     }
+    if (!S_ISREG(st.st_mode)) {
+        fglog("ERROR: %s is not a file", name);
+        return ERROR;
+    }
 
     /*
      * File size
-- 
2.43.0


From 0b8e752ee5b8415b2b0473439517c302890a0962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 84/86] fix: areafix: AutoCreateCmd got the requester's address
 as our AKA

---
 src/areafix/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 4f8331f..8643176 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -952,7 +952,7 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 area_arg,
                 znfp1(node),
                 state_arg,
-                znfp1(&p->addr),
+                znfp2(&p->addr),
                 p->lvl,
                 p->key ? key_arg : "NONE", p->desc ? desc_arg : "NONE", p->zone,
 #ifndef FTN_ACL
@@ -962,9 +962,9 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 p->flags & AREASBBS_PASSTHRU ? "-#" : "-");
 #endif                          /* !FTN_ACL */
         if (run_system(buffer))
-            debug(7, "exec autocreate script %s", buffer);
-        else
             fglog("ERROR: failed exec autocreate script %s", buffer);
+        else
+            debug(7, "exec autocreate script %s", buffer);
     } else
         areasbbs_changed();
 
-- 
2.43.0


From bac206c1b07b4c31b4d0692a7dcf059ba9fd2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 85/86] fix: rfc2ftn: report an article list that can't be
 removed

The list was left without a word and all its articles were gated
again by the next run.
---
 src/gate/rfc2ftn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index c853464..c74201d 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2519,7 +2519,11 @@ int main(int argc, char **argv)
     } else if (f_flag) {
         debug(3, "Removing list file %s", f_flag);
         fclose(fp);
-        unlink(f_flag);
+        if (unlink(f_flag) == ERROR) {
+            fglog("$ERROR: can't remove article list %s", f_flag);
+            if (status == EX_OK)
+                status = EX_OSERR;
+        }
         debug(3, "Removing position file %s", posfile);
         unlink(posfile);
     }
-- 
2.43.0


From 4ce61961b125a728a26641f6fef03e4730724085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:29 +0000
Subject: [PATCH 86/86] fix: ftn2rfc: sender's address of control characters
 only

---
 src/gate/ftn2rfc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 8115f58..4f6cad7 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -391,7 +391,15 @@ static void make_one_line(char *line, char *charset)
  */
 static bool is_single_address(RFCAddr *rfc)
 {
-    char *p = rfc->user;
+    char *p;
+
+    /* control characters don't get to the header, nothing may be left */
+    if (rfc->user[0] == '\0')
+        return false;
+    for (p = rfc->user; *p; p++)
+        if (iscntrl((unsigned char)*p))
+            return false;
+    p = rfc->user;
 
     if (!charset_is_7bit(p, strlen(p))
         || !charset_is_7bit(rfc->addr, strlen(rfc->addr)))
-- 
2.43.0

