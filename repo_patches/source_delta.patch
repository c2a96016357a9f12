From dc046489759f1f2fcee16d5492931dde38000dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 001/110] fix: terminate the codec module's variable table
 (out-of-bounds read at start-up)

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 37a3ecb..8621f5f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -102,7 +102,9 @@ static ngx_rtmp_variable_t  ngx_rtmp_codec_variabes[] = {
     { ngx_string("metadata"), NULL, ngx_rtmp_codec_variable_metadata,
       0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
     { ngx_string("metadata_"), NULL, ngx_rtmp_codec_variable_metadata_arg,
-      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 }
+      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
+
+    { ngx_null_string, NULL, NULL, 0, 0, 0 }
 };
 
 static const char *
-- 
2.43.0


From 8f6960071b84ea0e43936152564aef6434cc3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 002/110] fix: do not overflow the input buffer when a peer
 shrinks its chunk size with data pending

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0b1c02e..3dc4598 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -246,6 +246,19 @@ ngx_rtmp_recv(ngx_event_t *rev)
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                     "reusing formerly read data: %d", old_size);
 
+            /* data received with a bigger chunk size may not fit */
+            if (old_size > (size_t) (b->end - b->start)) {
+                p = ngx_palloc(s->in_pool, old_size);
+                if (p == NULL) {
+                    ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                            "in buf alloc failed");
+                    ngx_rtmp_finalize_session(s);
+                    return;
+                }
+                b->start = p;
+                b->end = p + old_size;
+            }
+
             b->pos = b->start;
             b->last = ngx_movemem(b->pos, old_pos, old_size);
 
-- 
2.43.0


From e2ab23964dabe9ad201fd93e21102b9b7aad00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 003/110] fix: read control messages that are split into
 several chunks

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 74 ++++++++++++--------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index dbf662a..475f339 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -12,29 +12,46 @@
 #include <string.h>
 
 
+/* control messages may be split into several chunks by a peer with a small
+ * chunk size, so their fields are gathered from the whole chain */
+static size_t
+ngx_rtmp_gather(ngx_chain_t *in, u_char *dst, size_t size)
+{
+    size_t                  n, len;
+
+    for (len = 0; in && len < size; in = in->next) {
+        n = ngx_min((size_t) (in->buf->last - in->buf->pos), size - len);
+        ngx_memcpy(dst + len, in->buf->pos, n);
+        len += n;
+    }
+
+    return len;
+}
+
+
 ngx_int_t
 ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
         ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
-    ngx_buf_t              *b;
-    u_char                 *p;
+    u_char                 *p, buf[5];
+    size_t                  len;
     uint32_t                val;
     uint8_t                 limit;
 
-    b = in->buf;
+    len = ngx_rtmp_gather(in, buf, sizeof(buf));
 
-    if (b->last - b->pos < 4) {
+    if (len < 4) {
         ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                "too small buffer for %d message: %d",
-                (int)h->type, b->last - b->pos);
+                "too small buffer for %d message: %uz",
+                (int)h->type, len);
         return NGX_OK;
     }
 
     p = (u_char*)&val;
-    p[0] = b->pos[3];
-    p[1] = b->pos[2];
-    p[2] = b->pos[1];
-    p[3] = b->pos[0];
+    p[0] = buf[3];
+    p[1] = buf[2];
+    p[2] = buf[1];
+    p[3] = buf[0];
 
     switch(h->type) {
         case NGX_RTMP_MSG_CHUNK_SIZE:
@@ -60,8 +77,8 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
             break;
 
         case NGX_RTMP_MSG_BANDWIDTH:
-            if (b->last - b->pos >= 5) {
-                limit = *(uint8_t*)&b->pos[4];
+            if (len >= 5) {
+                limit = *(uint8_t*)&buf[4];
 
                 (void)val;
                 (void)limit;
@@ -87,24 +104,23 @@ ngx_int_t
 ngx_rtmp_user_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                               ngx_chain_t *in)
 {
-    ngx_buf_t              *b;
-    u_char                 *p;
+    u_char                 *p, buf[10];
+    size_t                  len;
     uint16_t                evt;
     uint32_t                val;
 
-    b = in->buf;
+    len = ngx_rtmp_gather(in, buf, sizeof(buf));
 
-    if (b->last - b->pos < 6) {
+    if (len < 6) {
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                       "too small buffer for user message: %d",
-                       b->last - b->pos);
+                       "too small buffer for user message: %uz", len);
         return NGX_OK;
     }
 
     p = (u_char*)&evt;
 
-    p[0] = b->pos[1];
-    p[1] = b->pos[0];
+    p[0] = buf[1];
+    p[1] = buf[0];
 
     ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "RTMP recv user evt %s (%i)",
@@ -112,10 +128,10 @@ ngx_rtmp_user_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     p = (u_char *) &val;
 
-    p[0] = b->pos[5];
-    p[1] = b->pos[4];
-    p[2] = b->pos[3];
-    p[3] = b->pos[2];
+    p[0] = buf[5];
+    p[1] = buf[4];
+    p[2] = buf[3];
+    p[3] = buf[2];
 
     switch(evt) {
         case NGX_RTMP_USER_STREAM_BEGIN:
@@ -160,16 +176,16 @@ ngx_rtmp_user_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
                 v.msid = val;
 
-                if (b->last - b->pos < 10) {
+                if (len < 10) {
                     return NGX_OK;
                 }
 
                 p = (u_char *) &v.buflen;
 
-                p[0] = b->pos[9];
-                p[1] = b->pos[8];
-                p[2] = b->pos[7];
-                p[3] = b->pos[6];
+                p[0] = buf[9];
+                p[1] = buf[8];
+                p[2] = buf[7];
+                p[3] = buf[6];
 
                 ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
                                "receive: set_buflen msid=%uD buflen=%uD",
-- 
2.43.0


From 792b9edefb6111383402de14190f808d1ccd6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 004/110] fix: keep a partly received message when the peer
 shrinks its chunk size

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 3dc4598..af0a704 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -954,6 +954,7 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 
                 bi->pos += (ngx_cpymem(bo->last, bi->pos,
                             bo->end - bo->last) - bo->last);
+                bo->last = bo->end;
                 lo->next = ngx_rtmp_alloc_in_buf(s);
                 lo = lo->next;
                 if (lo == NULL) {
-- 
2.43.0


From 5542eb22c6cdebd72873c619a2cd49b15eba8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 005/110] fix: start a stream without codec headers at its
 first key frame instead of relaying only key frames

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 688180f..ad75dbf 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -941,6 +941,16 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                 cs->active = 1;
                 ss->current_time = cs->timestamp;
 
+            } else {
+
+                /* no codec header, start with the packet itself */
+
+                if (dummy_audio) {
+                    ngx_rtmp_send_message(ss, dummy, 0);
+                }
+
+                cs->timestamp = lh.timestamp;
+                cs->active = 1;
             }
         }
 
-- 
2.43.0


From 464c9a65500155264f4f17d015b11123118067ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 006/110] fix: an HEVC sequence header alone does not start a
 player that waits for a key frame

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index ad75dbf..9334e39 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -650,6 +650,7 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_codec_ctx_t           *codec_ctx;
     ngx_rtmp_frame_t               *header, *coheader, *meta, *avframe, *dummy;
     ngx_rtmp_core_srv_conf_t       *cscf;
+    ngx_rtmp_core_app_conf_t       *cacf;
     ngx_rtmp_live_app_conf_t       *lacf;
     ngx_rtmp_session_t             *ss;
     ngx_rtmp_header_t               ch, lh, clh;
@@ -732,6 +733,7 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
             ngx_rtmp_get_video_frame_type(in) : 0);
 
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
+    cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
 
     csidx = !(lacf->interleave || h->type == NGX_RTMP_MSG_VIDEO);
 
@@ -796,7 +798,8 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                 coheader = codec_ctx->aac_header;
             }
 
-            if (codec_ctx->video_codec_id == NGX_RTMP_VIDEO_H264 &&
+            if ((codec_ctx->video_codec_id == NGX_RTMP_VIDEO_H264 ||
+                 codec_ctx->video_codec_id == cacf->hevc_codec) &&
                 ngx_rtmp_is_codec_header(in))
             {
                 prio = 0;
-- 
2.43.0


From 342dca516c6bbb2e0e9c8b65f92f80f91ab0bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 007/110] fix: one-byte stack overflow when dumping a long
 codec header

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 8621f5f..9d5e9cd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -978,7 +978,7 @@ ngx_rtmp_codec_dump_header(ngx_rtmp_session_t *s, const char *type,
     u_char hex[] = "0123456789abcdef";
 
     for (pp = buf, p = in->buf->pos;
-         p < in->buf->last && pp < buf + sizeof(buf) - 1;
+         p < in->buf->last && pp < buf + sizeof(buf) - 2;
          ++p)
     {
         *pp++ = hex[*p >> 4];
-- 
2.43.0


From be537e04ad304043e637a027e5d28b6f96f08bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 008/110] fix: send command replies longer than one chunk
 completely

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 4 +++-
 modules/nginx-rtmp-module/ngx_rtmp_send.c         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 9d5e9cd..6740b08 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -998,6 +998,7 @@ ngx_rtmp_codec_reconstruct_meta(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_codec_ctx_t           *ctx;
     ngx_rtmp_core_srv_conf_t       *cscf;
+    ngx_chain_t                    *last;
     ngx_int_t                       rc;
 
     static struct {
@@ -1107,7 +1108,8 @@ ngx_rtmp_codec_reconstruct_meta(ngx_rtmp_session_t *s)
     ngx_memcpy(v.profile, ctx->profile, sizeof(ctx->profile));
     ngx_memcpy(v.level, ctx->level, sizeof(ctx->level));
 
-    rc = ngx_rtmp_append_amf(s, &ctx->meta->chain, &ctx->meta->chain, out_elts,
+    last = ctx->meta->chain;
+    rc = ngx_rtmp_append_amf(s, &ctx->meta->chain, &last, out_elts,
                              sizeof(out_elts) / sizeof(out_elts[0]));
     if (rc != NGX_OK || ctx->meta == NULL) {
         return NGX_ERROR;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index cc54afc..6467ad1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -420,6 +420,7 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_int_t                   rc;
     ngx_rtmp_core_srv_conf_t   *cscf;
     ngx_rtmp_frame_t           *frame;
+    ngx_chain_t                *last;
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "create: amf nelts=%ui", nelts);
@@ -429,7 +430,8 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     frame = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, NULL, 1);
     frame->hdr = *h;
 
-    rc = ngx_rtmp_append_amf(s, &frame->chain, &frame->chain, elts, nelts);
+    last = frame->chain;
+    rc = ngx_rtmp_append_amf(s, &frame->chain, &last, elts, nelts);
 
     if (rc != NGX_OK) {
         ngx_rtmp_shared_free_frame(frame);
-- 
2.43.0


From 8398906a9faa0722dae168d8d86f1f25ccc6a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 009/110] fix: do not count or return a stream whose name
 exceeds the limit

---
 modules/nginx-rtmp-module/ngx_live.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1e89270..8df9a00 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -303,6 +303,10 @@ ngx_live_create_stream(ngx_str_t *serverid, ngx_str_t *stream)
     }
 
     *pst = ngx_live_get_stream(stream);
+    if (*pst == NULL) {
+        return NULL;
+    }
+
     ++(*psrv)->n_stream;
 
     return *pst;
-- 
2.43.0


From bb64fe331713031d602aac1776895e832f7ea75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 010/110] fix: refuse publish/play before connect or on a
 session already carrying a stream

A publish or play before connect dereferenced a NULL application, and a
second publish/play or a duplicate connect overwrote the state of the
session's live stream.  closeStream/deleteStream without a stream crashed.
---
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.c   | 55 +++++++++++++++++--
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.h   |  2 +-
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index b29d002..4b3edf2 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -182,7 +182,7 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     }
 }
 
-void
+ngx_int_t
 ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing)
 {
@@ -214,11 +214,30 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
     }
 
     s->live_stream = ngx_live_create_stream(&s->serverid, &s->stream);
+    if (s->live_stream == NULL) {
+        return NGX_ERROR;
+    }
 
     ngx_live_create_ctx(s, publishing);
     s->publishing = publishing;
 
     ngx_rtmp_notify_stream_start(s);
+
+    return NGX_OK;
+}
+
+/* a session carries one stream, and only once it is connected */
+static ngx_int_t
+ngx_rtmp_cmd_check_session(ngx_rtmp_session_t *s)
+{
+    if (s->app_conf == NULL || s->closed || s->live_stream) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "session cannot start a stream, connected=%d closed=%d",
+                s->app_conf != NULL, (int) s->closed);
+        return NGX_ERROR;
+    }
+
+    return NGX_OK;
 }
 
 ngx_int_t
@@ -231,10 +250,16 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp publish filter");
 
+    if (!s->relay && ngx_rtmp_cmd_check_session(s) != NGX_OK) {
+        return NGX_ERROR;
+    }
+
     s->published = 1;
 
-    if (!s->relay) { /* relay pull */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1);
+    if (!s->relay /* relay pull */
+        && ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1) != NGX_OK)
+    {
+        return NGX_ERROR;
     }
 
     return ngx_rtmp_publish(s, v);
@@ -250,10 +275,16 @@ ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp play filter");
 
+    if (!s->relay && ngx_rtmp_cmd_check_session(s) != NGX_OK) {
+        return NGX_ERROR;
+    }
+
     s->played = 1;
 
-    if (!s->relay) { /* relay push */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0);
+    if (!s->relay /* relay push */
+        && ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0) != NGX_OK)
+    {
+        return NGX_ERROR;
     }
 
     return ngx_rtmp_play(s, v);
@@ -343,6 +374,12 @@ ngx_rtmp_cmd_connect_init(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
           in_cmd, sizeof(in_cmd) },
     };
 
+    if (s->app_conf) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "connect: duplicate connection");
+        return NGX_ERROR;
+    }
+
     ngx_memzero(&v, sizeof(v));
     if (ngx_rtmp_receive_amf(s, in, in_elts,
                 sizeof(in_elts) / sizeof(in_elts[0])))
@@ -622,6 +659,10 @@ ngx_rtmp_cmd_close_stream_init(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_ERROR;
     }
 
+    if (s->live_stream == NULL) { /* nothing to close */
+        return NGX_OK;
+    }
+
     s->finalize_reason = NGX_LIVE_NORMAL_CLOSE;
 
     return ngx_rtmp_close_stream_filter(s, &v);
@@ -662,6 +703,10 @@ ngx_rtmp_cmd_delete_stream_init(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_ERROR;
     }
 
+    if (s->live_stream == NULL) { /* nothing to close */
+        return NGX_OK;
+    }
+
     s->finalize_reason = NGX_LIVE_NORMAL_CLOSE;
 
     return ngx_rtmp_delete_stream(s, &v);
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
index 5bc3c03..1c1114f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
@@ -103,7 +103,7 @@ typedef struct {
 void ngx_rtmp_cmd_fill_args(u_char name[NGX_RTMP_MAX_NAME],
         u_char args[NGX_RTMP_MAX_ARGS]);
 void ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s);
-void ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
+ngx_int_t ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing);
 
 ngx_int_t ngx_rtmp_publish_filter(ngx_rtmp_session_t *s,
-- 
2.43.0


From 4bdaf87521d964a098abdaea93aa60fdb61232fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 011/110] fix: ignore stream data on a session without a live
 stream

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index af0a704..965feaf 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -874,6 +874,18 @@ ngx_rtmp_receive_message(ngx_rtmp_session_t *s,
         return NGX_OK;
     }
 
+    if (s->live_stream == NULL || s->closed) {
+        switch (h->type) {
+        case NGX_RTMP_MSG_AUDIO:
+        case NGX_RTMP_MSG_VIDEO:
+        case NGX_RTMP_MSG_AMF3_META:
+        case NGX_RTMP_MSG_AMF_META:
+        case NGX_RTMP_MSG_AGGREGATE:
+            /* stream data without a stream */
+            return NGX_OK;
+        }
+    }
+
     evhs = &cmcf->events[h->type];
     evh = evhs->elts;
 
-- 
2.43.0


From e2a7133709481c60fc0f40eaf46a5392344e22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 012/110] fix: sending before connect dereferenced a NULL
 application

---
 modules/nginx-rtmp-module/ngx_rtmp_shared_module.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index cdbf5d0..49636ba 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -88,20 +88,22 @@ ngx_rtmp_prepare_merge_frame(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_core_app_conf_t   *cacf;
     ngx_chain_t                *ll, **ln;
-    ngx_uint_t                  n;
+    ngx_uint_t                  n, nmerge;
 
     // merge frame not send completely
     if (s->out_chain) {
         return NGX_OK;
     }
 
+    // no application before connect
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
+    nmerge = cacf ? cacf->merge_frame : 1;
 
     ngx_rtmp_free_merge_frame(s);
 
     ln = &s->out_chain;
 
-    for (n = 0; n < cacf->merge_frame && s->out_pos != s->out_last; ++n) {
+    for (n = 0; n < nmerge && s->out_pos != s->out_last; ++n) {
         // save frame chain with rtmp chunk or flv tag
         s->merge[n] = s->prepare_handler(s);
 
-- 
2.43.0


From f0cc6e0752dbb66645a2513468628547c8950c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 013/110] fix: skipped AMF values at the end of a message
 dereferenced NULL

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index 77521ec..fed9007 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -328,7 +328,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         } else {
             switch (ngx_rtmp_amf_get(ctx, &type8, 1)) {
                 case NGX_DONE:
-                    if (elts->type & NGX_RTMP_AMF_OPTIONAL) {
+                    if (elts && elts->type & NGX_RTMP_AMF_OPTIONAL) {
                         return NGX_OK;
                     } else {
                         return NGX_ERROR;
-- 
2.43.0


From 5e027ec382124398b0fa932777ab45ea0c509a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 014/110] fix: onMetaData sent as a command before publish
 dereferenced a NULL application

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 6740b08..7a72fa7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -1265,6 +1265,11 @@ ngx_rtmp_codec_meta_data(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
           in_inf, sizeof(in_inf) },
     };
 
+    /* may come as a command of a session without a stream */
+    if (s->live_stream == NULL || s->closed) {
+        return NGX_OK;
+    }
+
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_codec_module);
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
-- 
2.43.0


From a71149a9950405a775ff74db6e1ac120146b4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 015/110] fix: bound the nesting of received AMF objects

The reader recursed once per nested object, so a message of nested
objects overflowed the stack.
---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 27 +++++++++++++++++++++---
 modules/nginx-rtmp-module/ngx_rtmp_amf.h |  4 ++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index fed9007..de8b65e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -169,6 +169,21 @@ ngx_rtmp_amf_put(ngx_rtmp_amf_ctx_t *ctx, void *p, size_t n)
 }
 
 
+/* the reader recurses once for every nested object or array */
+static ngx_int_t
+ngx_rtmp_amf_enter(ngx_rtmp_amf_ctx_t *ctx)
+{
+    if (ctx->depth >= NGX_RTMP_AMF_MAX_DEPTH) {
+        ngx_log_error(NGX_LOG_INFO, ctx->log, 0, "AMF nested too deep");
+        return NGX_ERROR;
+    }
+
+    ++ctx->depth;
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_rtmp_amf_read_object(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         size_t nelts)
@@ -401,30 +416,36 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
                 if (ngx_rtmp_amf_get(ctx, &max_index, 4) != NGX_OK) {
                     return NGX_ERROR;
                 }
-                if (ngx_rtmp_amf_read_object(ctx, data,
+                if (ngx_rtmp_amf_enter(ctx) != NGX_OK
+                    || ngx_rtmp_amf_read_object(ctx, data,
                     data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
                     ) != NGX_OK)
                 {
                     return NGX_ERROR;
                 }
+                --ctx->depth;
                 break;
 
             case NGX_RTMP_AMF_OBJECT:
-                if (ngx_rtmp_amf_read_object(ctx, data,
+                if (ngx_rtmp_amf_enter(ctx) != NGX_OK
+                    || ngx_rtmp_amf_read_object(ctx, data,
                     data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
                     ) != NGX_OK)
                 {
                     return NGX_ERROR;
                 }
+                --ctx->depth;
                 break;
 
             case NGX_RTMP_AMF_ARRAY:
-                if (ngx_rtmp_amf_read_array(ctx, data,
+                if (ngx_rtmp_amf_enter(ctx) != NGX_OK
+                    || ngx_rtmp_amf_read_array(ctx, data,
                     data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
                     ) != NGX_OK)
                 {
                     return NGX_ERROR;
                 }
+                --ctx->depth;
                 break;
 
             case NGX_RTMP_AMF_VARIANT_:
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.h b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
index 8f70a12..587a7a0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
@@ -34,6 +34,9 @@
 #define NGX_RTMP_AMF_TYPELESS           0x2000
 #define NGX_RTMP_AMF_CONTEXT            0x4000
 
+/* objects and arrays nested deeper are refused */
+#define NGX_RTMP_AMF_MAX_DEPTH          128
+
 #define NGX_RTMP_AMF_VARIANT            (NGX_RTMP_AMF_VARIANT_\
                                         |NGX_RTMP_AMF_TYPELESS)
 
@@ -52,6 +55,7 @@ typedef ngx_chain_t * (*ngx_rtmp_amf_alloc_pt)(void *arg);
 typedef struct {
     ngx_chain_t                        *link, *first;
     size_t                              offset;
+    ngx_uint_t                          depth;
     ngx_rtmp_amf_alloc_pt               alloc;
     void                               *arg;
     ngx_log_t                          *log;
-- 
2.43.0


From fd58bfce7c2f6adc51ead24d056cec4f9f09c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 016/110] fix: live record hung on a video frame before the
 codec header

---
 modules/nginx-rtmp-module/ngx_live_record.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 3ff27e2..2678a61 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -888,6 +888,10 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
+    if (codec_ctx->avc_header == NULL) { /* size of NAL length is unknown */
+        return NGX_OK;
+    }
+
     p = in->buf->pos;
     if (ngx_live_record_copy(s, &fmt, &p, 1, &in) != NGX_OK) {
         return NGX_ERROR;
-- 
2.43.0


From 0ed3084e0160b21b33d6503fc5d4e39d75a4e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 017/110] fix: live record of a frame of unknown type
 dereferenced a NULL codec context

---
 modules/nginx-rtmp-module/ngx_live_record.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 2678a61..c3c0c0d 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1128,6 +1128,9 @@ ngx_live_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
+    if (codec_ctx == NULL) {
+        return NGX_OK;
+    }
 
     if (h->type == NGX_RTMP_MSG_AUDIO) {
         switch (codec_ctx->audio_codec_id) {
-- 
2.43.0


From 86e507bb1e2b5a3dc49e617fb1dcc74f40914578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 018/110] fix: HEVC header parsing read and wrote outside of
 its buffers

The NAL unit length of the header was trusted, and its two bytes of NAL
header were counted twice.
---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 7a72fa7..67af12d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -441,6 +441,8 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
     ngx_rtmp_bit_read(br, 6);
     ngx_rtmp_bit_read(br, 3);
 
+    nal_unit_len = br->last - br->pos;
+
     count = 0;
     rbsp_bytes = 0;
     for (i = 0; i < nal_unit_len; ++i) {
@@ -451,7 +453,9 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
                 return NGX_ERROR;
             }
 
-            if (br->pos[i] == 0x03 && br->pos[i + 1] > 0x03) {
+            if (br->pos[i] == 0x03 && i + 1 < nal_unit_len
+                && br->pos[i + 1] > 0x03)
+            {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "four bytes sequence error");
                 return NGX_ERROR;
@@ -581,6 +585,14 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
     u_char                  buf[4096];
     ngx_int_t               rbsp_bytes;
 
+    if (pbr->pos >= pbr->last) {
+        return;
+    }
+
+    /* the NAL unit may be truncated */
+    nal_unit_len = ngx_min(nal_unit_len, (ngx_uint_t) (pbr->last - pbr->pos));
+    nal_unit_len = ngx_min(nal_unit_len, sizeof(buf));
+
     ngx_rtmp_bit_init_reader(&br, pbr->pos, pbr->pos + nal_unit_len);
     rbsp_bytes = ngx_rtmp_codec_parse_hevc_nal_to_rbsp(s, buf, &br, NAL_SPS,
                                                        nal_unit_len);
@@ -752,7 +764,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
      */
     num_arrays = (ngx_uint_t) ngx_rtmp_bit_read_8(&br);
 
-    for (i = 0; i < num_arrays; ++i) {
+    for (i = 0; i < num_arrays && !br.err; ++i) {
         /*
          * array_completeness                       1 bit
          * reserved                                 1 bit
@@ -762,7 +774,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         nal_unit_type = (ngx_uint_t) (ngx_rtmp_bit_read_8(&br) & 0x3f);
         num_nalus = (ngx_uint_t) ngx_rtmp_bit_read_16(&br);
 
-        for (j = 0; j < num_nalus; ++j) {
+        for (j = 0; j < num_nalus && !br.err; ++j) {
             /*
              * nalUnitLength                        2 bytes
              */
-- 
2.43.0


From 771d18492f792684c5ed13f3ca8b0ad7e68e4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 019/110] fix: a crafted AVC sequence header hung the worker

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 67af12d..6589c79 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -920,7 +920,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         /* num ref frames in pic order */
         num_ref_frames = (ngx_uint_t) ngx_rtmp_bit_read_golomb(&br);
 
-        for (n = 0; n < num_ref_frames; n++) {
+        for (n = 0; n < num_ref_frames && !br.err; n++) {
 
             /* offset for ref frame */
             ngx_rtmp_bit_read_golomb(&br);
-- 
2.43.0


From 2cbb4f42121fcee8efd0591625abdbe74bb860b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 020/110] fix: live record wrote to an unopened or closed file

When the index or the file could not be opened, the frame was written
nevertheless.
---
 modules/nginx-rtmp-module/ngx_live_record.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index c3c0c0d..4190ee2 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -415,14 +415,14 @@ ngx_live_record_open_index(ngx_rtmp_session_t *s)
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record: failed to open index '%V'", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     if (lseek(ctx->index.fd, 0, SEEK_END) == (off_t) -1) {
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record, %V seek failed", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     return ngx_live_record_open_file(s);
@@ -467,10 +467,12 @@ ngx_live_record_reopen_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
 
         if (ctx->index.fd != -1) {
             ngx_close_file(ctx->index.fd);
+            ctx->index.fd = -1;
         }
 
         if (ctx->file.fd != -1) {
             ngx_close_file(ctx->file.fd);
+            ctx->file.fd = -1;
         }
 
         return;
@@ -765,10 +767,12 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
             if (ctx->index.fd != -1) {
                 ngx_close_file(ctx->index.fd);
+                ctx->index.fd = -1;
             }
 
             if (ctx->file.fd != -1) {
                 ngx_close_file(ctx->file.fd);
+                ctx->file.fd = -1;
             }
 
             return NGX_OK;
@@ -842,6 +846,10 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         }
     }
 
+    if (ctx->last_time == 0) { /* failed to reopen */
+        return NGX_OK;
+    }
+
     /* write frame */
     ngx_memzero(&frame, sizeof(frame));
 
@@ -932,10 +940,12 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
             if (ctx->index.fd != -1) {
                 ngx_close_file(ctx->index.fd);
+                ctx->index.fd = -1;
             }
 
             if (ctx->file.fd != -1) {
                 ngx_close_file(ctx->file.fd);
+                ctx->file.fd = -1;
             }
 
             return NGX_OK;
@@ -1087,6 +1097,10 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         }
     }
 
+    if (ctx->last_time == 0) { /* failed to reopen */
+        return NGX_OK;
+    }
+
     /* write frame */
     ngx_memzero(&frame, sizeof(frame));
 
-- 
2.43.0


From 33bc1e7f361af5358f6f3c67c4a89a516bfbf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 021/110] fix: DASH of an audio-only stream dereferenced a NULL
 AVC header

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
index 98efe14..ba234d6 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
@@ -498,7 +498,7 @@ ngx_rtmp_mp4_write_avcc(ngx_rtmp_session_t *s, ngx_buf_t *b)
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    if (codec_ctx == NULL) {
+    if (codec_ctx == NULL || codec_ctx->avc_header == NULL) {
         return NGX_ERROR;
     }
 
-- 
2.43.0


From 71152470469114b2cc8a986234b69739cbdccd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 022/110] fix: rbuf: recycle a chain buffer only once and
 without its old flags

A second put of the same chain buffer put it on the free lists again before
it was reported, so it was later handed out twice.  A recycled buffer kept
flags like last_buf of its earlier use, which ends a HTTP response when the
buffer next carries live data.
---
 modules/nginx-toolkit-module/ngx_rbuf.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 6b80bd5..e79c326 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -182,6 +182,8 @@ ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc_rbuf, char *file, int line)
         ++ngx_rbuf_nalloc_chain;
     }
 
+    ngx_memzero(cl->buf, sizeof(ngx_buf_t));
+
     if (alloc_rbuf) {
         cl->buf->last = cl->buf->pos = cl->buf->start = ngx_rbuf_alloc(size);
         cl->buf->end = cl->buf->start + size;
@@ -216,13 +218,6 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
 
     cb = (ngx_chainbuf_t *) cl;
 
-    if (cb->alloc) {
-        ngx_rbuf_free(cl->buf->start);
-    }
-    cl->next = ngx_rbuf_free_chain;
-    ngx_rbuf_free_chain = cl;
-    ++ngx_rbuf_nfree_chain;
-
     // delete chainbuf from using map
     if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
         ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
@@ -230,6 +225,13 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
         return;
     }
     ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
+
+    if (cb->alloc) {
+        ngx_rbuf_free(cl->buf->start);
+    }
+    cl->next = ngx_rbuf_free_chain;
+    ngx_rbuf_free_chain = cl;
+    ++ngx_rbuf_nfree_chain;
 }
 
 ngx_chain_t *
-- 
2.43.0


From 598133925b4e5fbc83db5dbb6157e5c22425fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 023/110] fix: reset a recycled frame

A control message built in a recycled frame was sent with the message stream
id and timestamp of whatever the frame carried before.
---
 modules/nginx-rtmp-module/ngx_rtmp_shared_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index 49636ba..4ae6195 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -221,7 +221,7 @@ ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl, ngx_flag_t mandatory)
     frame = rscf->free_frame;
     if (frame) {
         rscf->free_frame = frame->next;
-        frame->chain = NULL;
+        ngx_memzero(frame, sizeof(ngx_rtmp_frame_t));
         --rscf->nfree_frame;
     } else {
         frame = ngx_pcalloc(rscf->pool, sizeof(ngx_rtmp_frame_t));
-- 
2.43.0


From ed589ae05886df0f981e305a710a00e243ee2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 024/110] fix: URLs with a fragment or an IPv6 host and IPv6
 addresses without port

A fragment without arguments was taken for a part of the path, a host in
brackets was cut at its first colon, parts missing in the URL kept the
content of the structure passed in, '[::1]' was not taken for an address
and '[::1]x' was.
---
 .../nginx-toolkit-module/ngx_toolkit_misc.c   | 69 ++++++++++++-------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_toolkit_misc.c b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
index 8045460..33a301f 100644
--- a/modules/nginx-toolkit-module/ngx_toolkit_misc.c
+++ b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
@@ -75,7 +75,7 @@ ngx_sock_pton_inet6(struct sockaddr *sa, u_char *text, size_t len)
     last = text + len;
     p = ngx_strlchr(text, last, ']');
 
-    if (p == NULL || p == last - 1) {
+    if (p == NULL) {
         ngx_log_error(NGX_LOG_INFO, ngx_cycle->log, 0,
                 "not a ipv6 address format");
         return 0;
@@ -98,10 +98,19 @@ ngx_sock_pton_inet6(struct sockaddr *sa, u_char *text, size_t len)
     sa->sa_family = AF_INET6;
 
     sin6 = (struct sockaddr_in6 *) sa;
+    sin6->sin6_port = 0;
+    sin6->sin6_flowinfo = 0;
+    sin6->sin6_scope_id = 0;
     ngx_memcpy(sin6->sin6_addr.s6_addr, inaddr6.s6_addr, 16);
 
     ++p;
-    if (*p == ':') { // has port
+    if (p != last) { // has port
+        if (*p != ':') {
+            ngx_log_error(NGX_LOG_INFO, ngx_cycle->log, 0,
+                    "not a ipv6 address format");
+            return 0;
+        }
+
         ++p;
         plen = last - p;
 
@@ -151,6 +160,7 @@ ngx_sock_pton_inet(struct sockaddr *sa, u_char *text, size_t len)
     sa->sa_family = AF_INET;
 
     sin = (struct sockaddr_in *) sa;
+    sin->sin_port = 0;
     sin->sin_addr.s_addr = inaddr;
 
     if (p != NULL) { // has port
@@ -183,6 +193,8 @@ ngx_parse_request_url(ngx_request_url_t *request_url, ngx_str_t *url)
         return NGX_ERROR;
     }
 
+    ngx_memzero(request_url, sizeof(ngx_request_url_t));
+
     last = url->data + url->len;
 
     scheme = url->data;
@@ -222,7 +234,20 @@ ngx_parse_request_url(ngx_request_url_t *request_url, ngx_str_t *url)
         }
     }
 
-    port = ngx_strlchr(host, host_last, ':');
+    port = host;
+    if (host < host_last && *host == '[') { /* IPv6 address */
+        port = ngx_strlchr(host, host_last, ']');
+        if (port == NULL) {
+            return NGX_ERROR;
+        }
+
+        ++port;
+        if (port != host_last && *port != ':') {
+            return NGX_ERROR;
+        }
+    }
+
+    port = ngx_strlchr(port, host_last, ':');
     if (port == NULL) { /* no port */
         request_url->host.data = host;
         request_url->host.len = host_last - host;
@@ -248,42 +273,36 @@ ngx_parse_request_url(ngx_request_url_t *request_url, ngx_str_t *url)
         goto done;
     }
 
+    request_url->uri_with_args.data = path;
+    request_url->uri_with_args.len = last - path;
+
+    fragment = ngx_strlchr(path, last, '#');
+    if (fragment) {
+        if (fragment + 1 == last) { /* fragment error */
+            return NGX_ERROR;
+        }
+
+        request_url->fragment.data = fragment + 1;
+        request_url->fragment.len = last - fragment - 1;
+
+        last = fragment;
+    }
+
     args = ngx_strlchr(path, last, '?');
+    request_url->path.data = path;
     if (args == NULL) { /* no args */
-        request_url->path.data = path;
         request_url->path.len = last - path;
-
-        request_url->uri_with_args = request_url->path;
-
-        goto done;
     } else {
-        request_url->path.data = path;
         request_url->path.len = args - path;
         ++args;
         if (args == last) { /* args error */
             return NGX_ERROR;
         }
-    }
 
-    fragment = ngx_strlchr(args, last, '#');
-    if (fragment == NULL) { /* no fragment */
         request_url->args.data = args;
         request_url->args.len = last - args;
-    } else {
-        request_url->args.data = args;
-        request_url->args.len = fragment - args;
-        ++fragment;
-        if (fragment == last) { /* fragment error */
-            return NGX_ERROR;
-        }
-
-        request_url->fragment.data = fragment;
-        request_url->fragment.len = last - fragment;
     }
 
-    request_url->uri_with_args.data = path;
-    request_url->uri_with_args.len = last - path;
-
 done:
     return NGX_OK;
 }
-- 
2.43.0


From f8e25eff965eaa29e31db30eafc399c896022804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 025/110] fix: dynamic resolver: room for IPv6 and unix
 addresses

struct sockaddr holds neither: an AAAA answer or a literal IPv6 or unix:
peer overwrote what lies behind it.
---
 .../ngx_dynamic_resolver.c                    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index 6f1592f..81831ae 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -33,7 +33,7 @@ struct ngx_dynamic_resolver_ctx_s {
 };
 
 typedef struct {
-    struct sockaddr                     sockaddr;
+    ngx_sockaddr_t                      sockaddr;
     socklen_t                           socklen;
     u_short                             priority;
     u_short                             weight;
@@ -282,7 +282,7 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
             ctx = domain->ctx;
             domain->ctx = ctx->next;
 
-            ctx->h(ctx->data, &domain->addrs[n].sockaddr,
+            ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
                    domain->addrs[n].socklen);
             ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
@@ -344,7 +344,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
     ngx_dynamic_resolver_conf_t    *drcf;
     ngx_dynamic_resolver_domain_t  *d;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -354,7 +354,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_error(NGX_LOG_DEBUG_CORE, cycle->log, 0,
@@ -416,7 +416,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
     ngx_dynamic_resolver_domain_t **pd, *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -426,7 +426,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
@@ -489,7 +489,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
     ngx_dynamic_resolver_domain_t  *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx, n;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -499,13 +499,13 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is ipv4/ipv6/unix address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
                 "dynamic resolver async, domain is ipv4/ipv6/unix address");
 
-        h(data, &sa, len);
+        h(data, &sa.sockaddr, len);
 
         return;
     }
@@ -582,7 +582,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
 
     /* call callback */
     n = ngx_random() % d->naddrs;
-    h(data, &d->addrs[n].sockaddr, d->addrs[n].socklen);
+    h(data, &d->addrs[n].sockaddr.sockaddr, d->addrs[n].socklen);
 
     return;
 
-- 
2.43.0


From e45dd2c6fd24c919c181b3071c98a68e17633ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 026/110] fix: dynamic resolver: use an address only once all
 are stored

Requests that waited for the first answer of a name with several addresses
could be given one that had not been copied yet.
---
 .../ngx_dynamic_resolver.c                    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index 81831ae..c97ac3a 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -272,23 +272,23 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
         domain->addrs[i].socklen = addrs[i].socklen;
         domain->addrs[i].priority = addrs[i].priority;
         domain->addrs[i].weight = addrs[i].weight;
+    }
 
-        n = ngx_random() % domain->naddrs;
+    n = ngx_random() % domain->naddrs;
 
-        while (domain->ctx) {
-            ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
-                    "dynamic resolver, resolver '%V' successd",
-                    &domain->domain);
-            ctx = domain->ctx;
-            domain->ctx = ctx->next;
+    while (domain->ctx) {
+        ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
+                "dynamic resolver, resolver '%V' successd",
+                &domain->domain);
+        ctx = domain->ctx;
+        domain->ctx = ctx->next;
 
-            ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
-                   domain->addrs[n].socklen);
-            ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
+        ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
+               domain->addrs[n].socklen);
+        ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
-            ++n;
-            n %= domain->naddrs;
-        }
+        ++n;
+        n %= domain->naddrs;
     }
 }
 
-- 
2.43.0


From b3b21cc56394737fb5306e48ae4f021859bd8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 027/110] fix: event resolver: no crash when a resolver has no
 servers

ngx_resolve_name_done() was called without a context.
---
 modules/nginx-toolkit-module/ngx_event_resolver.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_event_resolver.c b/modules/nginx-toolkit-module/ngx_event_resolver.c
index acd194e..8317f19 100644
--- a/modules/nginx-toolkit-module/ngx_event_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_event_resolver.c
@@ -238,12 +238,10 @@ ngx_event_resolver_start_resolver(ngx_str_t *domain,
     return;
 
 failed:
-    h(data, NULL, 0);
+    /* there is no resolver context here or the resolver has freed it */
+    ngx_event_resolver_put_ctx(erctx);
 
-    if (ctx == NULL || ctx == NGX_NO_RESOLVER) {
-        ngx_resolve_name_done(ctx);
-        ngx_event_resolver_put_ctx(erctx);
-    }
+    h(data, NULL, 0);
 }
 
 ngx_chain_t *
-- 
2.43.0


From f513caeb21605d48117dc3d13d8064acd0cf1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 028/110] fix: HEVC picture size is one short with a
 conformance window

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 6589c79..48ab0d6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -695,9 +695,10 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
          *  SubHeightC * conf_win_top_offset to
          *  pic_height_in_luma_samples -
          *  (SubHeightC * conf_win_bottom_offset + 1)
+         * both ends inclusive
          */
-        ctx->width = width - (subwidthC * cwro + 1) - (subwidthC * cwlo);
-        ctx->height = height - (subheightC * cwbo + 1) - (subheightC * cwto);
+        ctx->width = width - subwidthC * (cwlo + cwro);
+        ctx->height = height - subheightC * (cwto + cwbo);
     } else {
         ctx->width = width;
         ctx->height = height;
-- 
2.43.0


From 2b1d7aab1ef80ab0a2675e0bfe5ab456951e0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 029/110] fix: an AAC header without SBR or PS keeps the flags
 of the one before

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 48ab0d6..5b65dc6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -336,6 +336,9 @@ ngx_rtmp_codec_parse_aac_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 
     ctx->aac_chan_conf = (ngx_uint_t) ngx_rtmp_bit_read(&br, 4);
 
+    ctx->aac_sbr = 0;
+    ctx->aac_ps = 0;
+
     if (ctx->aac_profile == 5 || ctx->aac_profile == 29) {
         
         if (ctx->aac_profile == 29) {
-- 
2.43.0


From 46b3e51d9aa0b2262499381cdb4c08381b4d11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 030/110] fix: AVC picture size is wrong for field coding,
 scaling lists, other chroma formats or escaped bytes

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 56 +++++++++++++++----
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 5b65dc6..f6d91c8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -811,9 +811,12 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 {
     ngx_uint_t              profile_idc, width, height, crop_left, crop_right,
                             crop_top, crop_bottom, frame_mbs_only, n, cf_idc,
-                            num_ref_frames;
+                            num_ref_frames, crop_unit_x, crop_unit_y, zeros,
+                            i, size, last_scale, next_scale;
+    ngx_int_t               delta;
     ngx_rtmp_codec_ctx_t   *ctx;
     ngx_rtmp_bit_reader_t   br;
+    u_char                  buf[4096], *p, *last;
 
 #if (NGX_DEBUG)
     ngx_rtmp_codec_dump_header(s, "avc", in);
@@ -838,13 +841,29 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
     }
 
     /* nal size */
-    ngx_rtmp_bit_read(&br, 16);
+    n = (ngx_uint_t) ngx_rtmp_bit_read(&br, 16);
 
     /* nal type */
     if ((ngx_rtmp_bit_read_8(&br) & 0x1f) != 7) {
         return;
     }
 
+    /* drop emulation prevention bytes */
+    last = ngx_min(br.last, br.pos + (n ? n - 1 : 0));
+    zeros = 0;
+
+    for (p = buf; br.pos < last && p < buf + sizeof(buf); br.pos++) {
+        if (zeros >= 2 && *br.pos == 3) {
+            zeros = 0;
+            continue;
+        }
+
+        zeros = *br.pos ? 0 : zeros + 1;
+        *p++ = *br.pos;
+    }
+
+    ngx_rtmp_bit_init_reader(&br, buf, p);
+
     /* SPS */
 
     /* profile idc */
@@ -859,9 +878,12 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
     /* SPS id */
     ngx_rtmp_bit_read_golomb(&br);
 
+    cf_idc = 1;
+
     if (profile_idc == 100 || profile_idc == 110 ||
         profile_idc == 122 || profile_idc == 244 || profile_idc == 44 ||
-        profile_idc == 83 || profile_idc == 86 || profile_idc == 118)
+        profile_idc == 83 || profile_idc == 86 || profile_idc == 118 ||
+        profile_idc == 128)
     {
         /* chroma format idc */
         cf_idc = (ngx_uint_t) ngx_rtmp_bit_read_golomb(&br);
@@ -889,11 +911,22 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
                 /* seq scaling list present */
                 if (ngx_rtmp_bit_read(&br, 1)) {
 
-                    /* TODO: scaling_list()
-                    if (n < 6) {
-                    } else {
+                    /* scaling_list() */
+                    size = (n < 6 ? 16 : 64);
+                    last_scale = 8;
+                    next_scale = 8;
+
+                    for (i = 0; i < size && !br.err; i++) {
+                        if (next_scale) {
+                            delta = (ngx_int_t) ngx_rtmp_bit_read_golomb(&br);
+                            delta = (delta & 1) ? (delta + 1) / 2 : -delta / 2;
+                            next_scale = (last_scale + delta) & 0xff;
+                        }
+
+                        if (next_scale) {
+                            last_scale = next_scale;
+                        }
                     }
-                    */
                 }
             }
         }
@@ -971,9 +1004,12 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         crop_bottom = 0;
     }
 
-   ctx->width = (width + 1) * 16 - (crop_left + crop_right) * 2;
-   ctx->height = (2 - frame_mbs_only) * (height + 1) * 16 -
-                 (crop_top + crop_bottom) * 2;
+    crop_unit_x = (cf_idc == 1 || cf_idc == 2) ? 2 : 1;
+    crop_unit_y = (cf_idc == 1 ? 2 : 1) * (2 - frame_mbs_only);
+
+    ctx->width = (width + 1) * 16 - (crop_left + crop_right) * crop_unit_x;
+    ctx->height = (2 - frame_mbs_only) * (height + 1) * 16 -
+                  (crop_top + crop_bottom) * crop_unit_y;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0,
                    "sps codec: avc header "
-- 
2.43.0


From dc177c48531d80ab71dd82201fd2e42cd90df9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 031/110] fix: codec parameters in a header received in several
 chunks are not read

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index f6d91c8..1d42df5 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -299,9 +299,33 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 }
 
 
+/* a header may be spread over several chunks */
+static void
+ngx_rtmp_codec_init_reader(ngx_rtmp_bit_reader_t *br, ngx_chain_t *in,
+        u_char *buf, size_t size)
+{
+    u_char                 *p, *end;
+
+    if (in->next == NULL) {
+        ngx_rtmp_bit_init_reader(br, in->buf->pos, in->buf->last);
+        return;
+    }
+
+    end = buf + size;
+
+    for (p = buf; in && p < end; in = in->next) {
+        p = ngx_cpymem(p, in->buf->pos,
+                       ngx_min(in->buf->last - in->buf->pos, end - p));
+    }
+
+    ngx_rtmp_bit_init_reader(br, buf, p);
+}
+
+
 static void
 ngx_rtmp_codec_parse_aac_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 {
+    u_char                  header[4096];
     ngx_uint_t              idx;
     ngx_rtmp_codec_ctx_t   *ctx;
     ngx_rtmp_bit_reader_t   br;
@@ -318,7 +342,7 @@ ngx_rtmp_codec_parse_aac_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    ngx_rtmp_bit_init_reader(&br, in->buf->pos, in->buf->last);
+    ngx_rtmp_codec_init_reader(&br, in, header, sizeof(header));
 
     ngx_rtmp_bit_read(&br, 16);
 
@@ -713,6 +737,7 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
 static void
 ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 {
+    u_char                  header[4096];
     ngx_uint_t              i, j, num_arrays, nal_unit_type, num_nalus,
                             nal_unit_len;
     ngx_rtmp_codec_ctx_t   *ctx;
@@ -724,7 +749,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    ngx_rtmp_bit_init_reader(&br, in->buf->pos, in->buf->last);
+    ngx_rtmp_codec_init_reader(&br, in, header, sizeof(header));
 
     /*
      * FrameType                                    4 bits
@@ -809,6 +834,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 static void
 ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 {
+    u_char                  header[4096];
     ngx_uint_t              profile_idc, width, height, crop_left, crop_right,
                             crop_top, crop_bottom, frame_mbs_only, n, cf_idc,
                             num_ref_frames, crop_unit_x, crop_unit_y, zeros,
@@ -824,7 +850,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    ngx_rtmp_bit_init_reader(&br, in->buf->pos, in->buf->last);
+    ngx_rtmp_codec_init_reader(&br, in, header, sizeof(header));
 
     ngx_rtmp_bit_read(&br, 48);
 
-- 
2.43.0


From b1d886fbfe085fc0d2eacb7b2575d89ccf9d8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 032/110] fix: escape the server id on the statistics page

---
 modules/nginx-rtmp-module/ngx_rtmp_stat_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
index 7a5aed0..ab1d64f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
@@ -681,7 +681,7 @@ ngx_rtmp_stat_handler(ngx_http_request_t *r)
             NGX_RTMP_STAT_L("<server>\r\n");
 
             NGX_RTMP_STAT_L("<serverid>");
-            NGX_RTMP_STAT(psrv->serverid, ngx_strlen(psrv->serverid));
+            NGX_RTMP_STAT_ECS(psrv->serverid);
             NGX_RTMP_STAT_L("</serverid>\r\n");
 
             ngx_rtmp_stat_live(r, lll, psrv);
-- 
2.43.0


From 28425cf357db511b56d2271b4a3c837a470faae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 033/110] fix: free the JSON tree sys_stat builds

---
 modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
index 96e36d9..1ced773 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
@@ -182,6 +182,10 @@ ngx_rtmp_sys_stat_handler(ngx_http_request_t *r)
     ngx_live_stat(live_stream);
 
     json_out = (u_char *) cJSON_Print(root);
+    cJSON_Delete(root);
+    if (json_out == NULL) {
+        return NGX_ERROR;
+    }
 
     len = ngx_strlen(json_out);
 
-- 
2.43.0


From cddb6158c0b308b2df29afc9b20ee62bdb04aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 034/110] fix: Cache-Control is a linked list since nginx 1.23,
 not an array

---
 .../http/ngx_http_set_header.c                | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_set_header.c b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
index ffef7aa..57ee782 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_set_header.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
@@ -168,6 +168,33 @@ static ngx_int_t
 ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value)
 {
+#if (nginx_version >= 1023000)
+
+    /* multi headers are linked lists of elements since 1.23.0 */
+    ngx_table_elt_t  *ho, **ph;
+
+    ph = (ngx_table_elt_t **) ((char *) &r->headers_out + hv->offset);
+
+    if (*ph) {
+        for (ho = (*ph)->next; ho; ho = ho->next) { /* clear old value */
+            ho->hash = 0;
+            ho->value.len = 0;
+        }
+
+        ho = *ph;
+        ho->value = *value;
+
+        if (value->len == 0) {
+            ho->hash = 0;
+        } else {
+            ho->hash = hv->hash;
+        }
+
+        return NGX_OK;
+    }
+
+#else
+
     ngx_array_t      *pa;
     ngx_table_elt_t  *ho, **ph;
     ngx_uint_t        i;
@@ -206,6 +233,8 @@ ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
         return NGX_ERROR;
     }
 
+#endif
+
     ho = ngx_list_push(&r->headers_out.headers);
     if (ho == NULL) {
         return NGX_ERROR;
@@ -214,6 +243,9 @@ ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ho->value = *value;
     ho->hash = hv->hash;
     ho->key = hv->key;
+#if (nginx_version >= 1023000)
+    ho->next = NULL;
+#endif
     *ph = ho;
 
     return NGX_OK;
-- 
2.43.0


From e70aa8e1b8ef768230bc70482eddf6b12e5c8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 035/110] fix: notice an HTTP client that closed before the
 stream handler was set

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 5 +++++
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 91862f6..3d85dd0 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -693,6 +693,11 @@ ngx_http_flv_live_handler(ngx_http_request_t *r)
     r->read_event_handler = ngx_http_test_reading;
     r->write_event_handler = ngx_http_flv_live_write_handler;
 
+    /* the client may have closed before the handler above was set */
+    if (r->connection->read->ready) {
+        ngx_post_event(r->connection->read, &ngx_posted_events);
+    }
+
     ++r->count;
 
     return NGX_DONE;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 64061d2..9009c08 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -547,6 +547,11 @@ ngx_mpegts_http_handler(ngx_http_request_t *r)
     r->read_event_handler = ngx_http_test_reading;
     r->write_event_handler = ngx_mpegts_http_write_handler;
 
+    /* the client may have closed before the handler above was set */
+    if (r->connection->read->ready) {
+        ngx_post_event(r->connection->read, &ngx_posted_events);
+    }
+
     ++r->count;
 
     return NGX_DONE;
-- 
2.43.0


From 6f6cdba09968ba087f853f529311039d57b0045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 036/110] fix: send the cached GOP up to the end of the
 publisher's cache

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 8cbee81..3612c05 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -554,7 +554,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     pos = ssctx->gop_pos;
     frame = sctx->cache[pos];
-    while (frame && pos != ssctx->gop_last) {
+    while (frame && pos != sctx->gop_last) {
         if (!gacf->send_all &&
             frame->hdr.timestamp - ssctx->first_timestamp >= gacf->cache_time)
         {
@@ -570,7 +570,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         frame = sctx->cache[pos];
     }
 
-    if (frame == NULL || pos == ssctx->gop_last) { /* send all frame in cache */
+    if (frame == NULL || pos == sctx->gop_last) { /* send all frame in cache */
         ssctx->send_gop = 3;
     }
 
-- 
2.43.0


From 5aa5467eb748f053c7e9a805e51ed7183740c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 037/110] fix: do not step past the end of the cache when a
 frame was not cached

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 3612c05..aebb444 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -616,6 +616,11 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         return NGX_AGAIN;
     }
 
+    /* the new frame is not cached, nothing left to send */
+    if (ssctx->gop_pos == sctx->gop_last) {
+        return NGX_OK;
+    }
+
     pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
     /* new frame is video key frame */
     if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
-- 
2.43.0


From c95ce9435bdaf51df8848558e4fa47625ca24c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 038/110] fix: start a player anew on the GOP cache of another
 publication

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index aebb444..cd773cf 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -12,6 +12,8 @@
 
 static ngx_rtmp_close_stream_pt         next_close_stream;
 
+static ngx_uint_t                       ngx_rtmp_gop_seq;
+
 
 static void *ngx_rtmp_gop_create_app_conf(ngx_conf_t *cf);
 static char *ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent,
@@ -44,6 +46,11 @@ typedef struct {
 
     uint32_t                    first_timestamp;
 
+    /* publisher: number of publication
+     * player: publication player has been sent
+     */
+    ngx_uint_t                  seq;
+
     /* only for publisher, must at last of ngx_rtmp_gop_ctx_t */
     ngx_rtmp_frame_t           *cache[];
 } ngx_rtmp_gop_ctx_t;
@@ -427,6 +434,10 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_gop_module);
     }
 
+    if (ctx->seq == 0) {
+        ctx->seq = ++ngx_rtmp_gop_seq;
+    }
+
     nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 1;
     if (nmsg >= s->out_queue) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -580,6 +591,19 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_AGAIN;
 }
 
+static void
+ngx_rtmp_gop_reset_player(ngx_rtmp_gop_ctx_t *ctx)
+{
+    ctx->gop_pos = 0;
+    ctx->gop_last = 0;
+    ctx->send_gop = 0;
+    ctx->latest_aac_header = NULL;
+    ctx->latest_avc_header = NULL;
+    ctx->meta_version = 0;
+    ctx->first_timestamp = 0;
+    ctx->seq = 0;
+}
+
 ngx_int_t
 ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -607,6 +631,12 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ngx_rtmp_set_ctx(ss, ssctx, ngx_rtmp_gop_module);
     }
 
+    /* positions and headers belong to another publication */
+    if (ssctx->seq != sctx->seq) {
+        ngx_rtmp_gop_reset_player(ssctx);
+        ssctx->seq = sctx->seq;
+    }
+
     if (ngx_rtmp_gop_send_gop(s, ss) == NGX_AGAIN) {
         return NGX_OK;
     }
-- 
2.43.0


From 8c2d4749806c5ff03dd5d5e06bd56f6d005c3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 039/110] fix: resynchronise a player whose cached position was
 evicted

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index cd773cf..48addcd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -298,6 +298,7 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
     {
         if (ctx->cache[pos]->av_header) {
             ngx_rtmp_gop_reset_avheader(ctx, ctx->cache[pos]);
+            ctx->cache[pos] = NULL;
             ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
             continue;
         }
@@ -652,8 +653,11 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     }
 
     pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
+    frame = sctx->cache[pos];
     /* new frame is video key frame */
-    if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
+    if (frame && frame->keyframe && !frame->av_header
+            && sctx->cache[ssctx->gop_pos])
+    {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
             ss->out_pos = ss->out_last;
@@ -716,7 +720,9 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         return NGX_AGAIN;
     }
 
-    ssctx->gop_pos = ngx_rtmp_gop_next(s, ssctx->gop_pos);
+    if (frame) {
+        ssctx->gop_pos = ngx_rtmp_gop_next(s, ssctx->gop_pos);
+    }
     ngx_rtmp_send_message(ss, NULL, 0);
 
     return NGX_OK;
-- 
2.43.0


From c17b7f71fa050129beb6ef10af053992f82b7737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 040/110] fix: do not rewrite the timestamp of frames other
 players share

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 57 +++++++++++++------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 48addcd..03de7d8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -169,20 +169,34 @@ ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
 static ngx_int_t
 ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 {
- ngx_uint_t                      nmsg;
+    ngx_uint_t                      nmsg;
     ngx_rtmp_live_chunk_stream_t   *cs;
     ngx_uint_t                      csidx;
     ngx_rtmp_live_ctx_t            *lctx;
     ngx_rtmp_gop_ctx_t             *ctx;
-    uint32_t                        delta;
+    uint32_t                        delta, timestamp;
     ngx_rtmp_gop_app_conf_t        *gacf;
+    ngx_rtmp_core_srv_conf_t       *cscf;
+    ngx_rtmp_frame_t               *out;
 
     if (frame == NULL) {
         return NGX_OK;
     }
 
+    nmsg = (s->out_queue + s->out_last - s->out_pos) % s->out_queue + 1;
+
+    if (nmsg >= s->out_queue) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                "link frame nmsg(%ui) >= out_queue(%O)", nmsg, s->out_queue);
+        return NGX_AGAIN;
+    }
+
+    timestamp = frame->hdr.timestamp;
+
     gacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_gop_module);
-    if (gacf->fix_timestamp) {
+    if (gacf->fix_timestamp && frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
+        timestamp = 0;
+    } else if (gacf->fix_timestamp) {
         lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
         csidx = !(frame->hdr.type == NGX_RTMP_MSG_VIDEO);
 
@@ -211,18 +225,7 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
             " timestamp %uD, fixed timestamp %uD",
             frame->hdr.type, delta, frame->hdr.timestamp, cs->timestamp);
 
-        frame->hdr.timestamp = cs->timestamp;
-        if (frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
-            frame->hdr.timestamp = 0;
-        }
-    }
-
-    nmsg = (s->out_queue + s->out_last - s->out_pos) % s->out_queue + 1;
-
-    if (nmsg >= s->out_queue) {
-        ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                "link frame nmsg(%ui) >= out_queue(%O)", nmsg, s->out_queue);
-        return NGX_AGAIN;
+        timestamp = cs->timestamp;
     }
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
@@ -235,10 +238,28 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         ctx->latest_avc_header = frame;
     }
 
-    s->out[s->out_last] = frame;
-    s->out_last = ngx_rtmp_gop_next(s, s->out_last);
+    if (timestamp == frame->hdr.timestamp) {
+        ngx_rtmp_shared_acquire_frame(frame);
+        out = frame;
 
-    ngx_rtmp_shared_acquire_frame(frame);
+    } else {
+        /* frame is shared with cache and other players */
+        cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
+
+        out = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, frame->chain, 0);
+        if (out == NULL) {
+            return NGX_ERROR;
+        }
+
+        out->hdr = frame->hdr;
+        out->hdr.timestamp = timestamp;
+        out->av_header = frame->av_header;
+        out->keyframe = frame->keyframe;
+        out->mandatory = frame->mandatory;
+    }
+
+    s->out[s->out_last] = out;
+    s->out_last = ngx_rtmp_gop_next(s, s->out_last);
 
     return NGX_OK;
 }
-- 
2.43.0


From 1075c0f75a4c3cc53e022841198bdb65402e044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 041/110] fix: release frames skipped by low_latency, keep
 headers and control messages

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 36 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 03de7d8..3633624 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -613,6 +613,40 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_AGAIN;
 }
 
+/* drop media not sent yet, keep control messages */
+static void
+ngx_rtmp_gop_drop_out(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx)
+{
+    ngx_rtmp_frame_t           *frame;
+    size_t                      pos, last;
+
+    last = s->out_pos;
+    for (pos = s->out_pos; pos != s->out_last; pos = ngx_rtmp_gop_next(s, pos))
+    {
+        frame = s->out[pos];
+
+        if (frame->hdr.type != NGX_RTMP_MSG_AUDIO &&
+                frame->hdr.type != NGX_RTMP_MSG_VIDEO)
+        {
+            s->out[last] = frame;
+            last = ngx_rtmp_gop_next(s, last);
+            continue;
+        }
+
+        if (frame->av_header) {
+            if (frame->hdr.type == NGX_RTMP_MSG_AUDIO) {
+                ctx->latest_aac_header = NULL;
+            } else {
+                ctx->latest_avc_header = NULL;
+            }
+        }
+
+        ngx_rtmp_shared_free_frame(frame);
+    }
+
+    s->out_last = last;
+}
+
 static void
 ngx_rtmp_gop_reset_player(ngx_rtmp_gop_ctx_t *ctx)
 {
@@ -681,7 +715,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
-            ss->out_pos = ss->out_last;
+            ngx_rtmp_gop_drop_out(ss, ssctx);
             ngx_log_error(NGX_LOG_INFO, ss->log, 0,
                     "gop, low latency, chase to new keyframe");
 
-- 
2.43.0


From a70efab33bcc425fd0504418ba2d459b48063f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 042/110] fix: only AAC, H264 and HEVC frames are codec headers
 for the GOP cache

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 3633624..62e8c2e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -265,9 +265,11 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 }
 
 static void
-ngx_rtmp_gop_set_avframe_tag(ngx_rtmp_frame_t *frame)
+ngx_rtmp_gop_set_avframe_tag(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 {
+    ngx_rtmp_core_app_conf_t   *cacf;
     ngx_chain_t                *cl;
+    ngx_uint_t                  codec;
 
     if (frame->hdr.type != NGX_RTMP_MSG_AUDIO &&
             frame->hdr.type != NGX_RTMP_MSG_VIDEO)
@@ -277,7 +279,19 @@ ngx_rtmp_gop_set_avframe_tag(ngx_rtmp_frame_t *frame)
 
     cl = frame->chain;
 
-    frame->av_header = ngx_rtmp_is_codec_header(cl);
+    /* only AAC, H264 and HEVC have codec header */
+    if (frame->hdr.type == NGX_RTMP_MSG_AUDIO) {
+        codec = (cl->buf->pos[0] & 0xf0) >> 4;
+        frame->av_header = codec == NGX_RTMP_AUDIO_AAC
+                && ngx_rtmp_is_codec_header(cl);
+    } else {
+        cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
+        codec = cl->buf->pos[0] & 0x0f;
+        frame->av_header = (codec == NGX_RTMP_VIDEO_H264
+                || codec == (ngx_uint_t) cacf->hevc_codec)
+                && ngx_rtmp_is_codec_header(cl);
+    }
+
     frame->keyframe = (frame->hdr.type == NGX_RTMP_MSG_VIDEO)
             ? (ngx_rtmp_get_video_frame_type(cl) == NGX_RTMP_VIDEO_KEY_FRAME)
             : 0;
@@ -467,7 +481,7 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         return NGX_AGAIN;
     }
 
-    ngx_rtmp_gop_set_avframe_tag(frame);
+    ngx_rtmp_gop_set_avframe_tag(s, frame);
 
     ngx_log_debug5(NGX_LOG_DEBUG_RTMP, s->log, 0,
             "cache frame: %ud[%d %d], %ud, %ud",
-- 
2.43.0


From aff26595ada338bc93aee473ec717e209da8a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 043/110] fix: keep relaying when a GOP is longer than the
 cache

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 42 +++++++++++++++++--
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 62e8c2e..f2fea95 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -51,6 +51,9 @@ typedef struct {
      */
     ngx_uint_t                  seq;
 
+    /* start of current gop was dropped, cache was too small for it */
+    ngx_flag_t                  overflow;
+
     /* only for publisher, must at last of ngx_rtmp_gop_ctx_t */
     ngx_rtmp_frame_t           *cache[];
 } ngx_rtmp_gop_ctx_t;
@@ -403,6 +406,27 @@ reset:
     ctx->gop_pos = pos;
 }
 
+static void
+ngx_rtmp_gop_drop_cache(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx)
+{
+    ngx_rtmp_frame_t           *f;
+
+    while (ctx->gop_pos != ctx->gop_last) {
+        f = ctx->cache[ctx->gop_pos];
+
+        if (f->av_header) {
+            ngx_rtmp_gop_reset_avheader(ctx, f);
+        } else {
+            ngx_rtmp_shared_free_frame(f);
+        }
+
+        ctx->cache[ctx->gop_pos] = NULL;
+        ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
+    }
+
+    ctx->keyframe = NULL;
+}
+
 static void
 ngx_rtmp_gop_print_cache(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx)
 {
@@ -474,14 +498,24 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         ctx->seq = ++ngx_rtmp_gop_seq;
     }
 
+    ngx_rtmp_gop_set_avframe_tag(s, frame);
+
     nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 1;
     if (nmsg >= s->out_queue) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                 "cache frame nmsg(%ui) >= out_queue(%z)", nmsg, s->out_queue);
-        return NGX_AGAIN;
+
+        /* players go on with frames to come */
+        if (ctx->keyframe) {
+            ctx->overflow = 1;
+        }
+        ngx_rtmp_gop_drop_cache(s, ctx);
     }
 
-    ngx_rtmp_gop_set_avframe_tag(s, frame);
+    if (ctx->overflow && frame->keyframe && !frame->av_header) {
+        ngx_rtmp_gop_drop_cache(s, ctx);
+        ctx->overflow = 0;
+    }
 
     ngx_log_debug5(NGX_LOG_DEBUG_RTMP, s->log, 0,
             "cache frame: %ud[%d %d], %ud, %ud",
@@ -498,7 +532,7 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 
     /* first video frame is not intra_frame or video header */
     if (ctx->keyframe == NULL && frame->hdr.type == NGX_RTMP_MSG_VIDEO
-            && !frame->keyframe && !frame->av_header)
+            && !frame->keyframe && !frame->av_header && !ctx->overflow)
     {
         return NGX_OK;
     }
@@ -575,7 +609,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     /* link frame in s to ss */
     if (ssctx->send_gop == 1) {
         ssctx->gop_pos = sctx->gop_pos;
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
+        if (sctx->cache[ssctx->gop_pos] == NULL || sctx->overflow) {
             return NGX_AGAIN;
         }
 
-- 
2.43.0


From 3aa92563fc8a8a8a8ae0519db3ac27c978300706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 044/110] fix: send the codec headers again when the cache was
 dropped before it was sent

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index f2fea95..ca93d43 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -606,6 +606,11 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         return NGX_AGAIN;
     }
 
+    /* position was dropped from cache, start again with headers */
+    if (ssctx->send_gop == 2 && sctx->cache[ssctx->gop_pos] == NULL) {
+        ssctx->send_gop = 1;
+    }
+
     /* link frame in s to ss */
     if (ssctx->send_gop == 1) {
         ssctx->gop_pos = sctx->gop_pos;
@@ -627,10 +632,6 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
         ssctx->send_gop = 2;
         ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->hdr.timestamp;
-    } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ssctx->gop_pos = sctx->gop_pos;
-        }
     }
 
     pos = ssctx->gop_pos;
-- 
2.43.0


From 74f717295bca129170af66a6cb5873ca9d558c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 045/110] fix: read JSON numbers of 64 or more characters in
 full

---
 modules/nginx-rtmp-module/json/cJSON.c | 65 ++++++++++++++------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/modules/nginx-rtmp-module/json/cJSON.c b/modules/nginx-rtmp-module/json/cJSON.c
index 4c6a308..b399541 100644
--- a/modules/nginx-rtmp-module/json/cJSON.c
+++ b/modules/nginx-rtmp-module/json/cJSON.c
@@ -302,8 +302,10 @@ static cJSON_bool parse_number(cJSON * const item, parse_buffer * const input_bu
 {
     double number = 0;
     unsigned char *after_end = NULL;
-    unsigned char number_c_string[64];
+    unsigned char number_buffer[64];
+    unsigned char *number_c_string = number_buffer;
     unsigned char decimal_point = get_decimal_point();
+    size_t number_length = 0;
     size_t i = 0;
 
     if ((input_buffer == NULL) || (input_buffer->content == NULL))
@@ -311,43 +313,44 @@ static cJSON_bool parse_number(cJSON * const item, parse_buffer * const input_bu
         return false;
     }
 
+    /* a number may have any number of digits */
+    while (can_access_at_index(input_buffer, number_length)
+           && (buffer_at_offset(input_buffer)[number_length] != '\0')
+           && (strchr("0123456789+-eE.", buffer_at_offset(input_buffer)[number_length]) != NULL))
+    {
+        number_length++;
+    }
+
+    if (number_length >= sizeof(number_buffer))
+    {
+        number_c_string = (unsigned char*)input_buffer->hooks.allocate(number_length + sizeof(""));
+        if (number_c_string == NULL)
+        {
+            return false; /* allocation failure */
+        }
+    }
+
     /* copy the number into a temporary buffer and replace '.' with the decimal point
      * of the current locale (for strtod)
      * This also takes care of '\0' not necessarily being available for marking the end of the input */
-    for (i = 0; (i < (sizeof(number_c_string) - 1)) && can_access_at_index(input_buffer, i); i++)
-    {
-        switch (buffer_at_offset(input_buffer)[i])
-        {
-            case '0':
-            case '1':
-            case '2':
-            case '3':
-            case '4':
-            case '5':
-            case '6':
-            case '7':
-            case '8':
-            case '9':
-            case '+':
-            case '-':
-            case 'e':
-            case 'E':
-                number_c_string[i] = buffer_at_offset(input_buffer)[i];
-                break;
-
-            case '.':
-                number_c_string[i] = decimal_point;
-                break;
-
-            default:
-                goto loop_end;
+    for (i = 0; i < number_length; i++)
+    {
+        number_c_string[i] = buffer_at_offset(input_buffer)[i];
+        if (number_c_string[i] == '.')
+        {
+            number_c_string[i] = decimal_point;
         }
     }
-loop_end:
     number_c_string[i] = '\0';
 
     number = strtod((const char*)number_c_string, (char**)&after_end);
-    if (number_c_string == after_end)
+    i = (size_t)(after_end - number_c_string);
+    if (number_c_string != number_buffer)
+    {
+        input_buffer->hooks.deallocate(number_c_string);
+    }
+
+    if (i == 0)
     {
         return false; /* parse_error */
     }
@@ -370,7 +373,7 @@ loop_end:
 
     item->type = cJSON_Number;
 
-    input_buffer->offset += (size_t)(after_end - number_c_string);
+    input_buffer->offset += i;
     return true;
 }
 
-- 
2.43.0


From dc4e3d1ec37a0aeb00a798988c046e1073f0c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 046/110] fix: refuse \u escapes that are not four hex digits

---
 modules/nginx-rtmp-module/json/cJSON.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/json/cJSON.c b/modules/nginx-rtmp-module/json/cJSON.c
index b399541..9cc7d4b 100644
--- a/modules/nginx-rtmp-module/json/cJSON.c
+++ b/modules/nginx-rtmp-module/json/cJSON.c
@@ -609,6 +609,7 @@ static cJSON_bool print_number(const cJSON * const item, printbuffer * const out
 }
 
 /* parse 4 digit hexadecimal number */
+#define INVALID_HEX4 0x10000u
 static unsigned parse_hex4(const unsigned char * const input)
 {
     unsigned int h = 0;
@@ -631,7 +632,7 @@ static unsigned parse_hex4(const unsigned char * const input)
         }
         else /* invalid */
         {
-            return 0;
+            return INVALID_HEX4;
         }
 
         if (i < 3)
@@ -666,7 +667,7 @@ static unsigned char utf16_literal_to_utf8(const unsigned char * const input_poi
     first_code = parse_hex4(first_sequence + 2);
 
     /* check that the code is valid */
-    if (((first_code >= 0xDC00) && (first_code <= 0xDFFF)))
+    if ((first_code == INVALID_HEX4) || ((first_code >= 0xDC00) && (first_code <= 0xDFFF)))
     {
         goto fail;
     }
-- 
2.43.0


From a00bfbc858582dd83209ba2ec275434228e98687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 047/110] fix: do not read past JSON text that ends after an
 object's comma

---
 modules/nginx-rtmp-module/json/cJSON.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/json/cJSON.c b/modules/nginx-rtmp-module/json/cJSON.c
index 9cc7d4b..d657d0e 100644
--- a/modules/nginx-rtmp-module/json/cJSON.c
+++ b/modules/nginx-rtmp-module/json/cJSON.c
@@ -1652,6 +1652,11 @@ static cJSON_bool parse_object(cJSON * const item, parse_buffer * const input_bu
             current_item = new_item;
         }
 
+        if (cannot_access_at_index(input_buffer, 1))
+        {
+            goto fail; /* nothing comes after the comma */
+        }
+
         /* parse the name of the child */
         input_buffer->offset++;
         buffer_skip_whitespace(input_buffer);
-- 
2.43.0


From a5f542b51318922fa8fe2b91ca553a7e6e35d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 048/110] fix: use the serverid of the virtual server the
 client addresses

---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index 4b3edf2..354fea5 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -159,6 +159,11 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     s->scheme = rurl.scheme;
     s->domain = rurl.host;
 
+    /* serverid is the one of the virtual server */
+    if (ngx_rtmp_set_virtual_server(s, &s->domain) != NGX_OK) {
+        return;
+    }
+
     rcsf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
     rcsdf = ngx_rtmp_get_module_srv_dconf(s, &ngx_rtmp_core_module);
     if (rcsdf && rcsdf->serverid.len) {
-- 
2.43.0


From b539d19af73ae65fa0c3ba3e503f2692876af925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 049/110] fix: send the status of a refused session before
 closing it

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 2455f9e..0ebcbe2 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -333,6 +333,13 @@ ngx_rtmp_close_session_handler(ngx_event_t *e)
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "async close session");
 
+    /* the last messages, e.g. why the session is refused, may still be queued */
+    if (s->out_pos != s->out_last && !c->error && !c->timedout) {
+        c->destroyed = 0;
+        c->write->handler(c->write);
+        c->destroyed = 1;
+    }
+
     ngx_rtmp_fire_event(s, NGX_RTMP_DISCONNECT, NULL, NULL);
 
     // close connection before session, connection log use session log
-- 
2.43.0


From 8c4a2fa07f0a7ea998be5d9bee75a3b2fcaa6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 050/110] fix: a refused publisher does not write to the
 recording of the stream

---
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 48 ++++++++++++++-----
 .../nginx-rtmp-module/ngx_rtmp_live_module.h  |  4 ++
 .../ngx_rtmp_record_module.c                  | 13 +++++
 3 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 9334e39..b7641c6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -422,13 +422,47 @@ next:
 }
 
 
+static ngx_int_t
+ngx_rtmp_live_pubpri(ngx_rtmp_session_t *s)
+{
+    ngx_str_t                       pubpri;
+    ngx_int_t                       n;
+
+    if (s->relay) { // relay pull
+        return -1;
+    }
+
+    if (ngx_rtmp_arg(s, (u_char *) "pubpri", 6, &pubpri) != NGX_OK) {
+        return 0;
+    }
+
+    n = ngx_atoi(pubpri.data, pubpri.len);
+
+    return n == NGX_ERROR ? 0 : n; // invalid publish priority
+}
+
+
+ngx_flag_t
+ngx_rtmp_live_is_busy(ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_live_app_conf_t       *lacf;
+
+    lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
+    if (lacf == NULL || !lacf->live || s->live_stream == NULL) {
+        return 0;
+    }
+
+    return ngx_map_find(&s->live_stream->pubctx,
+                        (intptr_t) ngx_rtmp_live_pubpri(s)) != NULL;
+}
+
+
 static void
 ngx_rtmp_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
 {
     ngx_rtmp_live_ctx_t            *ctx;
     ngx_live_stream_t              *st;
     ngx_rtmp_live_app_conf_t       *lacf;
-    ngx_str_t                       pubpri;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
     if (lacf == NULL) {
@@ -470,17 +504,7 @@ ngx_rtmp_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
     }
 
     if (publisher) {
-        // set publish priority
-        if (s->relay) { // relay pull
-            ctx->pubpri = -1;
-        } else {
-            if (ngx_rtmp_arg(s, (u_char *) "pubpri", 6, &pubpri) == NGX_OK) {
-                ctx->pubpri = ngx_atoi(pubpri.data, pubpri.len);
-                if (ctx->pubpri == NGX_ERROR) { // invalid publish priority
-                    ctx->pubpri = 0;
-                }
-            }
-        }
+        ctx->pubpri = ngx_rtmp_live_pubpri(s);
 
         // duplicate publish priority
         if (ngx_map_find(&st->pubctx, (intptr_t) ctx->pubpri)) {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.h b/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
index cd9896a..84ff191 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
@@ -60,6 +60,10 @@ typedef struct {
 } ngx_rtmp_live_app_conf_t;
 
 
+/* whether the stream has a publisher with the priority of this session */
+ngx_flag_t ngx_rtmp_live_is_busy(ngx_rtmp_session_t *s);
+
+
 extern ngx_module_t  ngx_rtmp_live_module;
 
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 4cff47e..6fba850 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -10,6 +10,7 @@
 #include "ngx_rtmp_cmd_module.h"
 #include "ngx_rtmp_codec_module.h"
 #include "ngx_rtmp_record_module.h"
+#include "ngx_rtmp_live_module.h"
 
 
 ngx_rtmp_record_done_pt             ngx_rtmp_record_done;
@@ -715,6 +716,11 @@ ngx_rtmp_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         goto next;
     }
 
+    /* going to be refused, leave the file to the publisher */
+    if (ngx_rtmp_live_is_busy(s)) {
+        goto next;
+    }
+
     if (ngx_rtmp_record_init(s) != NGX_OK) {
         return NGX_ERROR;
     }
@@ -997,6 +1003,7 @@ ngx_rtmp_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 {
     ngx_rtmp_record_ctx_t          *ctx;
     ngx_rtmp_record_rec_ctx_t      *rctx;
+    ngx_rtmp_live_ctx_t            *lctx;
     ngx_uint_t                      n;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_record_module);
@@ -1005,6 +1012,12 @@ ngx_rtmp_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+
+    if (lctx && lctx->stream == NULL) { /* refused */
+        return NGX_OK;
+    }
+
     rctx = ctx->rec.elts;
 
     for (n = 0; n < ctx->rec.nelts; ++n, ++rctx) {
-- 
2.43.0


From 430de6480b5a5c444865f2837265c2449a669f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 051/110] fix: keep telling of audio and video in a recording
 that is appended to

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 6fba850..ec8730d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -573,6 +573,12 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
         p[1] = buf[5];
         p[2] = buf[4];
 
+        /* the header has to tell of the tags that are there already */
+        if (ngx_read_file(&rctx->file, buf, 1, 4) == 1) {
+            rctx->video = buf[0] & 0x01;
+            rctx->audio = (buf[0] & 0x04) >> 2;
+        }
+
 done:
         rctx->file.offset = file_size;
         rctx->time_shift = timestamp;
-- 
2.43.0


From 698a6ba2854b0fea6bd74353983288389cbe3426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 052/110] fix: close a recording that cannot be written and
 leave no incomplete tag

---
 .../ngx_rtmp_record_module.c                  | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index ec8730d..2e58538 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -887,9 +887,11 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
 {
     u_char                      hdr[11], *p, *ph;
     uint32_t                    timestamp, tag_size;
+    off_t                       start;
     ngx_rtmp_record_app_conf_t *rracf;
 
     rracf = rctx->conf;
+    start = rctx->file.offset;
 
     ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "record: %V frame: mlen=%uD",
@@ -935,11 +937,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     if (ngx_write_file(&rctx->file, hdr, ph - hdr, rctx->file.offset)
         == NGX_ERROR)
     {
-        ngx_rtmp_record_notify_error(s, rctx);
-
-        ngx_close_file(rctx->file.fd);
-
-        return NGX_ERROR;
+        goto failed;
     }
 
     /* write tag body
@@ -957,7 +955,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                            - in->buf->pos, rctx->file.offset)
             == NGX_ERROR)
         {
-            return NGX_ERROR;
+            goto failed;
         }
     }
 
@@ -974,7 +972,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                        rctx->file.offset)
         == NGX_ERROR)
     {
-        return NGX_ERROR;
+        goto failed;
     }
 
     rctx->nframes += inc_nframes;
@@ -987,6 +985,23 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     }
 
     return NGX_OK;
+
+failed:
+
+    ngx_rtmp_record_notify_error(s, rctx);
+
+#if !(NGX_WIN32)
+    /* do not leave an incomplete tag at the end */
+    if (ftruncate(rctx->file.fd, start) == -1) {
+        ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                      "record: %V truncate failed", &rracf->id);
+    }
+#endif
+
+    ngx_close_file(rctx->file.fd);
+    rctx->file.fd = NGX_INVALID_FILE;
+
+    return NGX_ERROR;
 }
 
 
-- 
2.43.0


From 43ab574445b34423d73d406e4f9aa0ac9a329aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 053/110] fix: do not write to a recording that reached its
 limit with the codec header

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 2e58538..4fc6ead 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -1155,6 +1155,10 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             }
 
             rctx->aac_header_sent = 1;
+
+            if (rctx->file.fd == NGX_INVALID_FILE) { /* limit reached */
+                return NGX_OK;
+            }
         }
 
         /* AVC header */
@@ -1177,6 +1181,10 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             }
 
             rctx->avc_header_sent = 1;
+
+            if (rctx->file.fd == NGX_INVALID_FILE) { /* limit reached */
+                return NGX_OK;
+            }
         }
     }
 
-- 
2.43.0


From 6dee99c5ad6529c8f2ab387d387d5372303e3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 054/110] fix: apply access rules before a session is
 published, played or recorded

Modules registered later run first, so the access rules were only looked at
after the recorder had opened (and truncated) the file of a publisher without
access and after Publish.Start or Play.Start had been queued.
---
 modules/nginx-rtmp-module/config | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/config b/modules/nginx-rtmp-module/config
index dae0bff..b3052ba 100644
--- a/modules/nginx-rtmp-module/config
+++ b/modules/nginx-rtmp-module/config
@@ -8,7 +8,6 @@ RTMP_CORE_MODULES="                                         \
                 ngx_rtmp_core_module                        \
                 ngx_rtmp_cmd_module                         \
                 ngx_rtmp_codec_module                       \
-                ngx_rtmp_access_module                      \
                 ngx_rtmp_live_module                        \
                 ngx_live_record_module                      \
                 ngx_live_relay_module                       \
@@ -18,7 +17,6 @@ RTMP_CORE_MODULES="                                         \
                 ngx_rtmp_exec_module                        \
                 ngx_rtmp_notify_module                        \
                 ngx_live_relay_inner_module                 \
-                ngx_rtmp_log_module                         \
                 ngx_rtmp_limit_module                       \
                 ngx_rtmp_hls_module                         \
                 ngx_rtmp_dash_module                        \
@@ -29,6 +27,8 @@ RTMP_CORE_MODULES="                                         \
                 ngx_mpegts_live_module                      \
                 ngx_mpegts_gop_module                       \
                 ngx_hls_live_module                         \
+                ngx_rtmp_access_module                      \
+                ngx_rtmp_log_module                         \
                 "
 
 
-- 
2.43.0


From 4d970b1878fe0dc0ba7c9e07ee6d003d8b2e5b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 055/110] fix: give HTTP players their address before access
 rules are applied

Without an address HTTP-FLV, HTTP-TS and HLS players passed every rule.
---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 2 ++
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c    | 5 +++--
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 3d85dd0..05e1853 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -627,6 +627,8 @@ ngx_http_flv_live_handler(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+    ngx_memcpy(s->sockaddr, r->connection->sockaddr, r->connection->socklen);
 //    ngx_rtmp_set_combined_log(s, r->connection->log->data,
 //            r->connection->log->handler);
     s->log->connection = r->connection->number;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 53732ae..390c7ed 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -695,6 +695,8 @@ ngx_hls_http_create_session(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+    ngx_memcpy(s->sockaddr, r->connection->sockaddr, r->connection->socklen);
 
     v.silent = 1;
 
@@ -735,6 +737,7 @@ ngx_hls_http_create_session(ngx_http_request_t *r)
     }
 
     if (ngx_rtmp_play_filter(s, &v) != NGX_OK) {
+        ngx_rtmp_finalize_fake_session(s);
         return NULL;
     }
 
@@ -773,8 +776,6 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
 
             return NGX_HTTP_INTERNAL_SERVER_ERROR;
         }
-        s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-        ngx_memcpy(s->sockaddr, r->connection->sockaddr, sizeof(struct sockaddr));
     }
 
     s->request = r;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 9009c08..499c65b 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -484,6 +484,8 @@ ngx_mpegts_http_handler(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+    ngx_memcpy(s->sockaddr, r->connection->sockaddr, r->connection->socklen);
 
     /* get host, app, stream name */
     ngx_memzero(&v, sizeof(ngx_rtmp_play_t));
-- 
2.43.0


From 6bb93c6d0f537942123e341c57df0f566e42928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 056/110] fix: count connections for max_connections

NGX_RTMP_CONNECT was never fired, so the limit was not enforced and the counter
went below zero when connections closed.
---
 modules/nginx-rtmp-module/ngx_rtmp_init.c         | 5 +++++
 modules/nginx-rtmp-module/ngx_rtmp_limit_module.c | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 0ebcbe2..7b91382 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -206,6 +206,11 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
 
     s->interprocess = unix_socket;
 
+    if (ngx_rtmp_fire_event(s, NGX_RTMP_CONNECT, NULL, NULL) != NGX_OK) {
+        ngx_rtmp_finalize_session(s);
+        return;
+    }
+
     if (addr_conf->proxy_protocol) {
         ngx_rtmp_proxy_protocol(s);
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
index dae8143..eea5d6e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
@@ -102,6 +102,9 @@ ngx_rtmp_limit_connect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     n = ++*nconn;
     ngx_shmtx_unlock(&shpool->mutex);
 
+    /* counted, sessions which are not RTMP clients are not */
+    ngx_rtmp_set_ctx(s, lmcf, ngx_rtmp_limit_module);
+
     rc = n > (ngx_uint_t) lmcf->max_conn ? NGX_ERROR : NGX_OK;
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
@@ -131,6 +134,12 @@ ngx_rtmp_limit_disconnect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    if (ngx_rtmp_get_module_ctx(s, ngx_rtmp_limit_module) == NULL) {
+        return NGX_OK;
+    }
+
+    ngx_rtmp_set_ctx(s, NULL, ngx_rtmp_limit_module);
+
     shm_zone = lmcf->shm_zone;
     shpool = (ngx_slab_pool_t *) shm_zone->shm.addr;
     nconn = shm_zone->data;
-- 
2.43.0


From fbb81e73d5ef7d502bc0b40434528ce3d28f1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 057/110] fix: keep the whole address of an IPv6 client

Copying sizeof(struct sockaddr) bytes cut it to its first 8 bytes.
---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 7b91382..04ae415 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -196,8 +196,8 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
     s->remote_addr_text.data = ngx_pcalloc(s->pool, c->addr_text.len);
     s->remote_addr_text.len = c->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data, c->addr_text.data, c->addr_text.len);
-    s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-    ngx_memcpy(s->sockaddr, c->sockaddr, sizeof(struct sockaddr));
+    s->sockaddr = ngx_pcalloc(s->pool, c->socklen);
+    ngx_memcpy(s->sockaddr, c->sockaddr, c->socklen);
 
     ngx_rtmp_init_session(s, c);
 
-- 
2.43.0


From 5baf0f39ecd118553f25d2a6fd530f04aa3950da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 058/110] fix: use the address from the PROXY protocol header

Access rules, statistics and logs still saw the proxy's address, and a stream
longer than 8 bytes without the signature was parsed as if it had one.
---
 modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
index 1b24055..a90a574 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
@@ -103,7 +103,7 @@ ngx_rtmp_proxy_protocol_recv(ngx_event_t *rev)
 
     p = buf;
 
-    if (n <= 8 && ngx_strncmp(p, "PROXY ", 6) != 0) {
+    if (n <= 8 || ngx_strncmp(p, "PROXY ", 6) != 0) {
         goto bad_header;
     }
 
@@ -179,6 +179,9 @@ skip:
         c->addr_text.data = text;
         c->addr_text.len = len;
 
+        s->sockaddr = addr.sockaddr;
+        s->remote_addr_text = c->addr_text;
+
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, c->log, 0,
                        "proxy_protocol: remote_addr:'%V'", &c->addr_text);
     }
-- 
2.43.0


From 7adddb00dcf31b9bfcca17f5881ef5bb16223151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 059/110] fix: apply the name filter of a control request
 without an application

---
 .../ngx_rtmp_control_module.c                 | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 4966ec5..aa5a4dc 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -363,9 +363,27 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
         app.len = 0;
     }
 
+    if (ngx_http_arg(r, (u_char *) "name", sizeof("name") - 1, &name)
+            != NGX_OK)
+    {
+        name.len = 0;
+    }
+
     if (app.len == 0) {
         for (n = 0; n < lcf->stream_buckets; ++n) {
             for (st = srv->streams[n]; st; st = st->next) {
+                if (name.len) {
+                    /* serverid/app/name */
+                    p = (u_char *) ngx_strchr(st->name
+                                              + ngx_strlen(srv->serverid) + 1,
+                                              '/');
+                    if (p == NULL || ngx_strlen(p + 1) != name.len
+                        || ngx_memcmp(p + 1, name.data, name.len) != 0)
+                    {
+                        continue;
+                    }
+                }
+
                 s = ngx_rtmp_control_walk_stream(r, st);
                 if (s != NGX_CONF_OK) {
                     return s;
@@ -376,12 +394,6 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
         return NGX_CONF_OK;
     }
 
-    if (ngx_http_arg(r, (u_char *) "name", sizeof("name") - 1, &name)
-            != NGX_OK)
-    {
-        name.len = 0;
-    }
-
     serverid.data = srv->serverid;
     serverid.len = ngx_strlen(srv->serverid);
 
-- 
2.43.0


From 5b7153ee95fe4c3f2a85ea348041c5e81b5ca1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 060/110] fix: refuse a publisher with the status for
 publishers, and answer 300 as any other redirect

---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index f7456ca..83a0451 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1253,7 +1253,7 @@ ngx_rtmp_notify_pnotify_start_handle(ngx_netcall_ctx_t *nctx, ngx_int_t code)
 
     s->notify_status = code;
 
-    if (code < NGX_HTTP_OK || code > NGX_HTTP_SPECIAL_RESPONSE) {
+    if (code < NGX_HTTP_OK || code >= NGX_HTTP_SPECIAL_RESPONSE) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                 "notify %s start notify error: %i",
                ngx_rtmp_notify_app_type[nctx->type], code);
@@ -1282,7 +1282,7 @@ next:
     return;
 
 error:
-    if (octx->type == NGX_RTMP_OCLP_PUBLISH) {
+    if (nctx->type == NGX_RTMP_OCLP_PUBLISH) {
         ngx_rtmp_send_status(s, "NetStream.Publish.Forbidden", "status",
                 "Publish stream Forbidden");
     } else if (s->live_type == NGX_RTMP_LIVE) {
@@ -1306,7 +1306,7 @@ ngx_rtmp_notify_meta_start_handle(ngx_netcall_ctx_t *nctx, ngx_int_t code)
 
     s->notify_status = code;
 
-    if (code < NGX_HTTP_OK || code > NGX_HTTP_SPECIAL_RESPONSE) {
+    if (code < NGX_HTTP_OK || code >= NGX_HTTP_SPECIAL_RESPONSE) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                 "meta %s start notify error: %i",
                ngx_rtmp_notify_app_type[nctx->type], code);
-- 
2.43.0


From f6ba068906eeb949d74c7beec91722de3de32bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 061/110] fix: escape the values of a session in a notify url

---
 .../ngx_rtmp_notify_module.c                  | 70 ++++++++++++++-----
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 83a0451..7c9644b 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1088,13 +1088,51 @@ ngx_rtmp_notify_init_process(ngx_cycle_t *cycle)
 
 }
 
+/*
+ * append what a client sent to a url: whatever would end the request line or
+ * the args is escaped, and in a single value what would end the value, too
+ */
+static u_char *
+ngx_rtmp_notify_escape(u_char *p, u_char *last, ngx_str_t *str,
+    ngx_uint_t value)
+{
+    static u_char               hex[] = "0123456789ABCDEF";
+    u_char                      c;
+    size_t                      i;
+
+    for (i = 0; i < str->len; ++i) {
+        c = str->data[i];
+
+        if (c > ' ' && c < 0x7f && c != '#'
+            && !(value && (c == '%' || c == '&' || c == '+' || c == '?')))
+        {
+            if (p == last) {
+                break;
+            }
+
+            *p++ = c;
+            continue;
+        }
+
+        if (last - p < 3) {
+            break;
+        }
+
+        *p++ = '%';
+        *p++ = hex[c >> 4];
+        *p++ = hex[c & 0xf];
+    }
+
+    return p;
+}
+
 static void
 ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     ngx_rtmp_notify_event_t *event, ngx_netcall_ctx_t *nctx, ngx_uint_t stage)
 {
     ngx_request_url_t           ru;
     size_t                      len;
-    u_char                     *p, *buf;
+    u_char                     *p, *buf, *last;
     ngx_live_record_ctx_t      *lrctx;
     unsigned                    fill = 0;
     ngx_str_t                   args;
@@ -1111,19 +1149,18 @@ ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     len -= p - buf;
     buf = p;
 
-    if (ru.args.len) { // url already has args
-        p = ngx_snprintf(buf, len,
-                "&call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
-                ngx_rtmp_notify_app_type[nctx->type],
-                ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
-    } else {
-        p = ngx_snprintf(buf, len,
-                "?call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
-                ngx_rtmp_notify_app_type[nctx->type],
-                ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
-    }
+    last = buf + len;
+
+    p = ngx_slprintf(buf, last, "%ccall=%s&act=%s&domain=",
+            ru.args.len ? '&' : '?', // url already has args
+            ngx_rtmp_notify_app_type[nctx->type],
+            ngx_rtmp_notify_stage[stage]);
+    p = ngx_rtmp_notify_escape(p, last, &s->domain, 1);
+    p = ngx_slprintf(p, last, "&app=");
+    p = ngx_rtmp_notify_escape(p, last, &s->app, 1);
+    p = ngx_slprintf(p, last, "&name=");
+    p = ngx_rtmp_notify_escape(p, last, &s->name, 1);
+    p = ngx_slprintf(p, last, "&clientid=%D", s->number);
     len -= p - buf;
     buf = p;
 
@@ -1146,9 +1183,8 @@ ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     if (event->args.len) {
         ngx_rtmp_fetch_variable(s, s->pool, &event->args, &args);
         if (args.len > 0) {
-            p = ngx_snprintf(buf, len, "&%V", &args);
-            len -= p - buf;
-            buf = p;
+            p = ngx_snprintf(buf, len, "&");
+            p = ngx_rtmp_notify_escape(p, last, &args, 0);
         }
     }
 
-- 
2.43.0


From 9e4e20c62c5584f1393fc4bf043dd07fc6286936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 062/110] fix: call every metadata url once

---
 .../ngx_rtmp_notify_module.c                  | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 7c9644b..096a3cf 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -160,7 +160,8 @@ typedef struct {
 typedef struct {
     ngx_netcall_ctx_t          *nctx;
     ngx_netcall_ctx_t          *rctx;
-    ngx_netcall_ctx_t          *mctx; // metadata notify's netcall ctx
+    // metadata notify's netcall ctx, one for each url
+    ngx_netcall_ctx_t          *mctx[NGX_RTMP_MAX_OCLP];
 
     ngx_rtmp_notify_event_t    *event;
     ngx_uint_t                  type;
@@ -1260,6 +1261,7 @@ ngx_rtmp_notify_common_done(ngx_rtmp_session_t *s, ngx_netcall_ctx_t *nctx)
     if ((nctx->stage & NGX_RTMP_OCLP_DONE) == NGX_RTMP_OCLP_DONE) {
         oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
         event = oacf->events[nctx->type].elts;
+        event += nctx->idx;
 
         ngx_rtmp_notify_common_url(&nctx->url, s, event, nctx,
                                  NGX_RTMP_OCLP_DONE);
@@ -1364,7 +1366,8 @@ error:
 }
 
 static ngx_int_t
-ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
+ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type,
+    ngx_uint_t idx)
 {
     ngx_rtmp_notify_app_conf_t   *oacf;
     ngx_rtmp_notify_event_t      *event;
@@ -1388,9 +1391,10 @@ ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
     }
 
     event = oacf->events[type].elts;
+    event += idx;
 
     nctx = ngx_netcall_create_ctx(type, &event->groupid,
-            event->stage, event->timeout, event->update, 0);
+            event->stage, event->timeout, event->update, idx);
     nctx->ev.log = s->log;
 
     ngx_rtmp_notify_common_url(&nctx->url, s, event, nctx,
@@ -1398,7 +1402,10 @@ ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
     nctx->handler = ngx_rtmp_notify_meta_start_handle;
     nctx->data = s;
 
-    ctx->mctx = nctx;
+    if (ctx->mctx[idx]) { // metadata changed
+        ngx_netcall_destroy(ctx->mctx[idx]);
+    }
+    ctx->mctx[idx] = nctx;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "meta %s start create %V",
             ngx_rtmp_notify_app_type[nctx->type], &nctx->url);
@@ -1412,13 +1419,16 @@ static void
 ngx_rtmp_notify_meta_done(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_notify_ctx_t        *ctx;
+    ngx_uint_t                    i;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_notify_module);
     if (ctx == NULL) {
         return;
     }
 
-    ngx_rtmp_notify_common_done(s, ctx->mctx);
+    for (i = 0; i < NGX_RTMP_MAX_OCLP; ++i) {
+        ngx_rtmp_notify_common_done(s, ctx->mctx[i]);
+    }
 }
 
 static ngx_int_t
@@ -2164,7 +2174,6 @@ static ngx_int_t
 ngx_rtmp_notify_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
     ngx_rtmp_notify_app_conf_t   *oacf;
-    ngx_rtmp_notify_event_t      *event;
     ngx_uint_t                    i;
 
     if (ngx_rtmp_is_codec_header(in) && !s->interprocess && !s->relay) {
@@ -2193,10 +2202,9 @@ ngx_rtmp_notify_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 
         s->live_stream->notify_meta = 1;
 
-        event = oacf->events[NGX_RTMP_OCLP_META].elts;
-        for (i = 0; i < oacf->events[NGX_RTMP_OCLP_META].nelts; ++i, ++event) {
+        for (i = 0; i < oacf->events[NGX_RTMP_OCLP_META].nelts; ++i) {
             // ngx_rtmp_notify_relay_start(s, event, NGX_RTMP_OCLP_META, 0);
-            ngx_rtmp_notify_meta_start(s, NGX_RTMP_OCLP_META);
+            ngx_rtmp_notify_meta_start(s, NGX_RTMP_OCLP_META, i);
         }
     }
 
-- 
2.43.0


From 59b9b6e8770142f6e733a7d186caa404dfddd422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 063/110] fix: report the end of an HTTP response without a
 body

---
 modules/nginx-client-module/ngx_http_client.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 3a94803..080ce11 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -726,6 +726,16 @@ ngx_http_client_process_header(ngx_client_session_t *s)
                 ctx->headers_in.content_length_n = -1;
             }
 
+            /* these responses have no body, whatever the headers say */
+
+            if (r->method == NGX_HTTP_CLIENT_HEAD
+                || ctx->headers_in.status_n == NGX_HTTP_NO_CONTENT
+                || ctx->headers_in.status_n == NGX_HTTP_NOT_MODIFIED)
+            {
+                ctx->headers_in.chunked = 0;
+                ctx->headers_in.content_length_n = 0;
+            }
+
             ctx->length = ctx->headers_in.content_length_n;
 
             break;
@@ -1181,6 +1191,15 @@ ngx_http_client_body_length(ngx_http_request_t *r, ngx_chain_t *cl)
 
     ctx = r->ctx[0];
 
+    if (ctx->length == 0) {
+        if (cl) {
+            ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
+                    "http client, read unexpected data");
+            ngx_put_chainbufs(cl);
+        }
+        return NGX_DONE;
+    }
+
     for (ll = &ctx->in; *ll; ll = &(*ll)->next);
 
     while (cl) {
-- 
2.43.0


From 289fea125b761950d847156ffc8a07f73a78c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 064/110] fix: give the rest of a body to the reader when the
 server closes, and wait for the first chunk

---
 modules/nginx-client-module/ngx_http_client.c | 49 +++++++++++++------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 080ce11..0f5dad0 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1244,6 +1244,10 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
     hccf = (ngx_http_client_conf_t *) ngx_get_conf(ngx_cycle->conf_ctx,
                                                    ngx_http_client_module);
 
+    if (cl == NULL) {
+        return NGX_AGAIN;
+    }
+
     for (ll = &ctx->in; *ll; ll = &(*ll)->next);
 
     while (1) {
@@ -1742,6 +1746,7 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
     ngx_int_t                   n, rc;
     ngx_event_t                *rev;
     ngx_chain_t                *cl, **ll, *ln;
+    ngx_flag_t                  received;
 
     ctx = r->ctx[0];
     s = ctx->session;
@@ -1790,24 +1795,19 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
         }
         buf = ln->buf;
 
-        n = ngx_client_read(s, buf);
-
-        if (n == 0) {
-            ngx_put_chainbuf(ln);
-            ngx_put_chainbufs(cl);
-
-            ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
-                    "http client, server close");
-            return 0;
+        if (rev->error) {
+            n = NGX_ERROR;
+        } else if (rev->eof) {
+            n = 0;
+        } else {
+            n = ngx_client_read(s, buf);
         }
 
-        if (n == NGX_ERROR) {
+        if (n == 0 || n == NGX_ERROR) {
             ngx_put_chainbuf(ln);
-            ngx_put_chainbufs(cl);
 
-            ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
-                    "http client, server error close");
-            return NGX_ERROR;
+            /* the data read before goes first */
+            break;
         }
 
         if (n == NGX_AGAIN) { // all data in socket has been read
@@ -1827,6 +1827,8 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
         ctx->rbytes += n;
     }
 
+    received = cl != NULL;
+
     if (ctx->headers_in.chunked) {
         rc = ngx_http_client_body_chunked(r, cl);
     } else {
@@ -1842,7 +1844,24 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
         return NGX_DONE;
     }
 
-    return NGX_AGAIN;
+    if (n == NGX_AGAIN) {
+        return NGX_AGAIN;
+    }
+
+    if (received) { // report the end in the next call
+        ngx_post_event(rev, &ngx_posted_events);
+        return NGX_AGAIN;
+    }
+
+    if (n == 0) {
+        ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
+                "http client, server close");
+        return 0;
+    }
+
+    ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
+            "http client, server error close");
+    return NGX_ERROR;
 }
 
 
-- 
2.43.0


From 0f837d710114430b3e065f38296ad7f50496712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 065/110] fix: keep the part of a body that has not been
 consumed

---
 modules/nginx-client-module/ngx_http_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 0f5dad0..62769f9 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1757,11 +1757,11 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
     // recycle bufs
     while (ctx->in) {
         cl = ctx->in;
-        ctx->in = cl->next;
         if (cl->buf->pos != cl->buf->last) {
             break;
         }
 
+        ctx->in = cl->next;
         ngx_put_chainbuf(cl);
     }
 
-- 
2.43.0


From b34a9f4399d3d016bd646fbfafd2323a5e8c095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 066/110] fix: cut a body at its Content-Length, and free the
 rest of an invalid chunked body

---
 modules/nginx-client-module/ngx_http_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 62769f9..2d5521b 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1217,6 +1217,7 @@ ngx_http_client_body_length(ngx_http_request_t *r, ngx_chain_t *cl)
                 if (cl || buf->last - buf->pos > len) {
                     ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
                             "http client, read unexpected data");
+                    buf->last = buf->pos + len;
                     ngx_put_chainbufs(cl);
                 }
                 return NGX_DONE;
@@ -1339,6 +1340,7 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
 
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "http client, invalid chunked response");
+        ngx_put_chainbufs(cl);
 
         return NGX_ERROR;
     }
-- 
2.43.0


From 3c04292b6a5696656685e499690f994ef1c15fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 067/110] fix: fail when the headers of a response exceed
 header_buffer_size instead of looping

---
 modules/nginx-client-module/ngx_http_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 2d5521b..42aa579 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -744,7 +744,7 @@ ngx_http_client_process_header(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
-            if (n == NGX_ERROR || n == 0) {
+            if (n == NGX_ERROR || n == NGX_DECLINED || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process header read error");
                 ngx_http_client_finalize_request(r, 1);
@@ -815,7 +815,7 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
-            if (n == NGX_ERROR || n == 0) {
+            if (n == NGX_ERROR || n == NGX_DECLINED || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process status line read error");
                 ngx_http_client_finalize_request(r, 1);
-- 
2.43.0


From 69926950847072eb1c6b72f4e4fd09fb8cc9f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 068/110] fix: fail on a response without a valid status line

---
 modules/nginx-client-module/ngx_http_client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 42aa579..be7e31d 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -847,7 +847,8 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                     "http client, recv no valid HTTP/1.0 header");
 
-            r->http_version = NGX_HTTP_VERSION_9;
+            ngx_http_client_finalize_request(r, 1);
+            return;
         }
 
         /* NGX_OK */
-- 
2.43.0


From 8b686fd11ceaae79ec6d6b84c324b707a0441644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 069/110] fix: fail on a response with an invalid
 Content-Length

---
 modules/nginx-client-module/ngx_http_client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index be7e31d..1f2736e 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -401,6 +401,12 @@ ngx_http_client_process_content_length(ngx_http_request_t *r,
     ctx->headers_in.content_length = h;
     ctx->headers_in.content_length_n = ngx_atoof(h->value.data, h->value.len);
 
+    if (ctx->headers_in.content_length_n == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                "invalid Content-Length header, %V: %V", &h->key, &h->value);
+        return NGX_ERROR;
+    }
+
     return NGX_OK;
 }
 
-- 
2.43.0


From 07b4d3026edc7a2e17369b5260a67f8c68fd76f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 070/110] fix: close a client session when its response timed
 out

---
 modules/nginx-client-module/ngx_client.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-client-module/ngx_client.c b/modules/nginx-client-module/ngx_client.c
index e14e8b9..c5d8aef 100644
--- a/modules/nginx-client-module/ngx_client.c
+++ b/modules/nginx-client-module/ngx_client.c
@@ -691,6 +691,16 @@ ngx_client_read_handler(ngx_event_t *ev)
         return;
     }
 
+    if (ev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, &s->log, NGX_ETIMEDOUT,
+                "server timed out");
+        c->timedout = 1;
+
+        ngx_client_close(s);
+
+        return;
+    }
+
     if (s->client_recv) {
         s->client_recv(s);
     } else {
-- 
2.43.0


From 6aefe1fae39aa6afe74e9b814bbc7bde2a91cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 071/110] fix: do not reuse a connection the server closes

---
 modules/nginx-client-module/ngx_http_client.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 1f2736e..6de46a6 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -421,11 +421,11 @@ ngx_http_client_process_connection(ngx_http_request_t *r, ngx_table_elt_t *h,
 
     ctx->headers_in.connection = h;
 
-    if (ngx_strcasestrn(h->value.data, "close", 5)) {
+    if (ngx_strcasestrn(h->value.data, "close", 5 - 1)) {
         ctx->headers_in.connection_type = NGX_HTTP_CLIENT_CONNECTION_CLOSE;
-    } else if (ngx_strcasestrn(h->value.data, "keep-alive", 10)) {
+    } else if (ngx_strcasestrn(h->value.data, "keep-alive", 10 - 1)) {
         ctx->headers_in.connection_type = NGX_HTTP_CLIENT_CONNECTION_KEEP_ALIVE;
-    } else if (ngx_strcasestrn(h->value.data, "upgrade", 7)) {
+    } else if (ngx_strcasestrn(h->value.data, "upgrade", 7 - 1)) {
         ctx->headers_in.connection_type = NGX_HTTP_CLIENT_CONNECTION_UPGRADE;
     }
 
@@ -1926,6 +1926,15 @@ ngx_http_client_finalize_request(ngx_http_request_t *r, ngx_flag_t closed)
     ctx = r->ctx[0];
     s = ctx->session;
 
+    /* the server will close the connection */
+    if (ctx->headers_in.connection_type == NGX_HTTP_CLIENT_CONNECTION_CLOSE
+        || (ctx->headers_in.http_version < NGX_HTTP_VERSION_11
+            && ctx->headers_in.connection_type
+               != NGX_HTTP_CLIENT_CONNECTION_KEEP_ALIVE))
+    {
+        closed = 1;
+    }
+
     ngx_http_client_free_request(r);
 
     if (closed) {
-- 
2.43.0


From e2bd5a8e700c7939bdce71589e8793fdddaaa913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 072/110] fix: close the connections that are not kept, and
 limit the kept ones to max_idle_client

---
 modules/nginx-client-module/ngx_client.c | 30 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/modules/nginx-client-module/ngx_client.c b/modules/nginx-client-module/ngx_client.c
index c5d8aef..64cbc67 100644
--- a/modules/nginx-client-module/ngx_client.c
+++ b/modules/nginx-client-module/ngx_client.c
@@ -355,7 +355,7 @@ close:
 }
 
 
-static void
+static ngx_int_t
 ngx_client_reusable_connection(ngx_client_session_t *s)
 {
     ngx_client_conf_t          *ccf;
@@ -372,20 +372,18 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
 
 #if (NGX_HAVE_UNIX_DOMAIN)
     if (s->peer.sockaddr->sa_family == AF_UNIX) { // Unix will not reuse
-        return;
+        return NGX_DECLINED;
     }
 #endif
 
-    if (ccf->idle_connction > ccf->keepalive) {
+    if (ccf->idle_connction >= ccf->max_idle_client) {
         ngx_log_error(NGX_LOG_INFO, c->log, 0,
                 "too many connections in pool");
-        return;
+        return NGX_DECLINED;
     }
 
     ngx_log_error(NGX_LOG_INFO, &s->log, 0, "client, put connection in pool");
 
-    c->pool = NULL;
-
     // get client connection pool for c->sockaddr
     paddr.data = addr;
     paddr.len = NGX_SOCKADDR_STRLEN;
@@ -398,7 +396,7 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
     if (pool == NULL) { // connection pool for addr is empty
         pool = ngx_client_get_client_pool();
         if (pool == NULL) {
-            return;
+            return NGX_ERROR;
         }
 
         ngx_memcpy(pool->addr, addr, NGX_SOCKADDR_STRLEN);
@@ -410,6 +408,7 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
     }
 
     // put connection in connection pool
+    c->pool = NULL;
     ngx_queue_insert_head(&pool->cs_queue, &c->queue);
     c->data = pool;
     ++ccf->idle_connction;
@@ -436,10 +435,20 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
                 NGX_DEL_TIMER(c->read, c->number);
             }
 
+            ngx_queue_remove(&c->queue);
+            --ccf->idle_connction;
+            --pool->qsize;
+
+            if (ngx_queue_empty(&pool->cs_queue)) {
+                ngx_map_delete(&ccf->client_pools, (intptr_t) &pool->paddr);
+                ngx_client_put_client_pool(pool);
+            }
+
             ngx_close_connection(c);
-            return;
         }
     }
+
+    return NGX_OK;
 }
 
 
@@ -1280,7 +1289,10 @@ ngx_client_set_keepalive(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_CORE, &s->log, 0,
             "nginx client set keepalive");
 
-    ngx_client_reusable_connection(s);
+    if (ngx_client_reusable_connection(s) != NGX_OK) {
+        ngx_client_close(s);
+        return;
+    }
 
     pool = s->pool;
     NGX_DESTROY_POOL(pool);
-- 
2.43.0


From e22438974c268ac6bd285ee7cd2975ef6b7dde06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 073/110] fix: hls: write the buffered audio when the stream is
 closed

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 35f1c6e..b4386b6 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1636,6 +1636,8 @@ ngx_rtmp_hls_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "hls: close stream");
 
+    ngx_rtmp_hls_flush_audio(s);
+
     ngx_rtmp_hls_close_fragment(s);
 
 next:
-- 
2.43.0


From 9d6ffdb3dde4f2bbb7116fdd7b8c12342f80c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 074/110] fix: hls: no huge fragment duration when a timestamp
 goes back

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index b4386b6..ebcb750 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1733,7 +1733,12 @@ ngx_rtmp_hls_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
             force = 1;
 
         } else {
-            f->duration = (ts - ctx->frag_ts) / 90000.;
+            /* a frame may be older than the fragment */
+
+            if (d > 0) {
+                f->duration = d / 90000.;
+            }
+
             discont = 0;
         }
     }
-- 
2.43.0


From 0a1c442b5cfe8b074b582d8936248150c15f7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 075/110] fix: hls: no space in EXT-X-PLAYLIST-TYPE

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index ebcb750..2cf8733 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -528,7 +528,7 @@ ngx_rtmp_hls_write_playlist(ngx_rtmp_session_t *s)
                      ctx->frag, max_frag);
 
     if (hacf->type == NGX_RTMP_HLS_TYPE_EVENT) {
-        p = ngx_slprintf(p, end, "#EXT-X-PLAYLIST-TYPE: EVENT\n");
+        p = ngx_slprintf(p, end, "#EXT-X-PLAYLIST-TYPE:EVENT\n");
     }
 
     n = ngx_write_fd(fd, buffer, p - buffer);
-- 
2.43.0


From 2bddea16eff2ba6b0b76174c3441298865b4dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 076/110] fix: hls: do not buffer a truncated audio frame

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 2cf8733..8f368ac 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1909,6 +1909,12 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     if (b->last + size > b->end) {
         ngx_rtmp_hls_flush_audio(s);
+
+        if (b->last + size > b->end) {
+            ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
+                           "hls: no fragment yet and audio buffer is full");
+            return NGX_OK;
+        }
     }
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
-- 
2.43.0


From 6fd7e28f079bd3a0f7ffc5306e46ebd8795802ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 077/110] fix: hls: negative composition time

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 8f368ac..f5e738c 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2107,6 +2107,12 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
 
+    /* composition time is signed */
+
+    if (cts & 0x00800000) {
+        cts |= 0xFF000000;
+    }
+
     ngx_memzero(&out, sizeof(out));
 
     out.start = buffer;
@@ -2279,7 +2285,7 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     frame.cc = ctx->video_cc;
     frame.dts = (uint64_t) h->timestamp * 90;
-    frame.pts = frame.dts + cts * 90;
+    frame.pts = frame.dts + (int64_t) (int32_t) cts * 90;
     frame.pid = 0x100;
     frame.sid = 0xe0;
     frame.key = (ftype == 1);
-- 
2.43.0


From 99938d544fe4a295131504132669d8dc7a4e21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 078/110] fix: hls: HEVC NAL unit of type TRAIL_N

---
 .../hls/ngx_rtmp_hls_module.c                 | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index f5e738c..2c95788 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2044,6 +2044,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     uint32_t                        len, rlen;
     ngx_buf_t                       out, *b;
     uint32_t                        cts;
+    u_char                         *np, prefix[3];
+    ngx_chain_t                    *nin;
     ngx_rtmp_mpegts_frame_t         frame;
     ngx_uint_t                      nal_bytes;
     ngx_int_t                       aud_sent, sps_pps_sent, boundary;
@@ -2188,19 +2190,27 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                     break;
             }
         } else {
-            if (src_nal_type == 0) {
-                if (ngx_rtmp_hls_copy(s, out.last, &p, 3, &in) != NGX_OK) {
+            if (src_nal_type == 0 && len > 4) {
+                np = p;
+                nin = in;
+
+                if (ngx_rtmp_hls_copy(s, prefix, &p, 3, &in) != NGX_OK) {
                     ngx_log_error(NGX_LOG_ERR, s->log, 0,
                                     "rtmp-hls: video| buffer error");
                     return NGX_ERROR;
                 }
-                if (out.last[0] == 0x00 && out.last[1] == 0x00 &&
-                    out.last[2] == 0x01)
+                if (prefix[0] == 0x00 && prefix[1] == 0x00 &&
+                    prefix[2] == 0x01)
                 {
-                    ngx_rtmp_hls_copy(s, &src_nal_type, &p, 1, &in);
+                    if (ngx_rtmp_hls_copy(s, &src_nal_type, &p, 1, &in)
+                        != NGX_OK)
+                    {
+                        return NGX_ERROR;
+                    }
                     len -= 4;
                 } else {
-                    p -= 3;
+                    p = np;
+                    in = nin;
                 }
             }
 
-- 
2.43.0


From 555be7f8d8205f5975f68d6e37a3db996fe5daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 079/110] fix: hls: crash on a truncated NAL unit

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 2c95788..5736a9e 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2283,8 +2283,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         if (ngx_rtmp_hls_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
             ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                        "rtmp-hls: video| copy nal, failed copy, len %d, in %d",
-                        len - 1, in->buf->last - in->buf->pos);
+                        "rtmp-hls: video| copy nal, failed copy, len %uD",
+                        len - 1);
             return NGX_ERROR;
         }
 
-- 
2.43.0


From f8120958e667e53734230487ddb44f74678b50f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 080/110] fix: mpegts: HEVC NAL unit of type TRAIL_N across
 chunks

---
 .../mpegts/ngx_mpegts_live_module.c                  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 1bac711..ffb0fec 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -949,17 +949,20 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         /* h264 format of rtmp_flv contains NAL header Prefix "00 00 00 01" */
         if (0 == nal_type) {
             u_char nal_header[4] = {0};
+            u_char *np = p;
+            ngx_chain_t *nin = in;
+
             if (ngx_mpegts_live_copy(s, nal_header, &p, 3, &in) != NGX_OK) {
                 return NGX_OK;
             }
 
-            if (0 != ngx_strcmp(nal_header, "\0\0\1")) {
+            if (0 != ngx_memcmp(nal_header, "\0\0\1", 3)) {
                 ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                     "mpegts module: h265 hander| "
                     "is not h265 NAL header [00 00 00 01]");
-                p -= 3;
+                p = np;
+                in = nin;
                 goto NAL_TRAIL_N;
-                return NGX_OK;
             }
 
             if (ngx_mpegts_live_copy(s, &src_nal_type, &p, 1, &in) != NGX_OK) {
@@ -986,7 +989,8 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
             }
 #endif
             /* back to 00 00 01 nal_type*/
-            p = p - 4;
+            p = np;
+            in = nin;
             if (ngx_mpegts_live_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
                 return NGX_ERROR;
             }
-- 
2.43.0


From 65671180fcacbddec94944e2efc963325fd8cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 081/110] fix: mpegts: ignore frames of a session that is not
 or no longer the publisher

---
 .../nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index ffb0fec..fa93048 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -549,7 +549,7 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
     ngx_rtmp_codec_ctx_t           *codec_ctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
-    codec_ctx = ngx_rtmp_get_module_ctx(s->live_stream->publish_ctx->session, ngx_rtmp_codec_module);
+    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     if (ctx->aac_codec) {
         return NGX_OK;
@@ -584,7 +584,7 @@ ngx_mpegts_live_init_avc_codec(ngx_rtmp_session_t *s)
     ngx_rtmp_codec_ctx_t           *codec_ctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
-    codec_ctx = ngx_rtmp_get_module_ctx(s->live_stream->publish_ctx->session, ngx_rtmp_codec_module);
+    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     if (ctx->avc_codec) {
         return NGX_OK;
@@ -1624,9 +1624,16 @@ ngx_mpegts_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_frame_t          frame;
     ngx_rtmp_codec_ctx_t     *codec_ctx;
     ngx_rtmp_core_app_conf_t *cacf;
+    ngx_rtmp_live_ctx_t      *lctx;
 
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
 
+    /* refused or closed */
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+    if (lctx == NULL || lctx->stream == NULL || !lctx->publishing) {
+        return NGX_OK;
+    }
+
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
-- 
2.43.0


From 238ef48f9ea955335e4bfd1e608cb5797dec532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 082/110] fix: mpegts: crash when the publisher left before the
 header is sent

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 5 ++---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 499c65b..b87bb95 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -95,7 +95,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     ngx_keyval_t            *h;
     ngx_chain_t              out;
     ngx_mpegts_http_ctx_t   *ctx;
-    ngx_rtmp_session_t      *s, *ps;
+    ngx_rtmp_session_t      *s;
 
     if (r->header_sent) {
         return NGX_OK;
@@ -103,7 +103,6 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
 
     ctx = ngx_http_get_module_ctx(r, ngx_mpegts_http_module);
     s = ctx->session;
-    ps = s->live_stream->publish_ctx->session;
 
     r->headers_out.status = NGX_HTTP_OK;
     r->keepalive = 0; /* set Connection to closed */
@@ -127,7 +126,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     out.buf->last = ngx_cpymem(out.buf->pos,
         ngx_rtmp_mpegts_pat, 188);
 
-    ngx_rtmp_mpegts_gen_pmt(ps->vcodec, ps->acodec, s->log, out.buf->last);
+    ngx_rtmp_mpegts_gen_pmt(s->vcodec, s->acodec, s->log, out.buf->last);
     out.buf->last += 188;
 
     out.buf->flush = 1;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index fa93048..b1f8f3d 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1705,6 +1705,8 @@ ngx_mpegts_live_avframe(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 
     for (cctx = s->live_stream->mpegts_ctx; cctx; cctx = cctx->next) {
         ss = cctx->session;
+        ss->vcodec = s->vcodec;
+        ss->acodec = s->acodec;
         ngx_mpegts_gop_send(s, ss);
 
         if (!s->connection->write->active) {
-- 
2.43.0


From cfe2eca54ac43a41e9dab48a8158795dc5852463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 083/110] fix: mpegts: send the buffered audio when the stream
 is closed

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c | 9 ++++++---
 .../nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c    | 6 +++---
 .../nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h    | 2 ++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 0491679..270c1f3 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -680,12 +680,15 @@ ngx_mpegts_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 {
     ngx_mpegts_gop_ctx_t   *ctx;
 
-    ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_gop_module);
-    if (ctx == NULL) {
+    if (!s->published) {
         goto next;
     }
 
-    if (!s->published) {
+    /* the rest of the audio */
+    ngx_mpegts_live_flush_audio(s);
+
+    ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_gop_module);
+    if (ctx == NULL) {
         goto next;
     }
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index b1f8f3d..46296e6 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -636,7 +636,7 @@ ngx_mpegts_live_append_out_chain(ngx_chain_t **header, ngx_mpegts_frame_t *frame
 }
 */
 
-static ngx_int_t
+ngx_int_t
 ngx_mpegts_live_flush_audio(ngx_rtmp_session_t *s)
 {
     ngx_mpegts_live_ctx_t          *ctx;
@@ -1709,8 +1709,8 @@ ngx_mpegts_live_avframe(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
         ss->acodec = s->acodec;
         ngx_mpegts_gop_send(s, ss);
 
-        if (!s->connection->write->active) {
-            ngx_post_event(s->connection->write, &ngx_posted_events);
+        if (!ss->connection->write->active) {
+            ngx_post_event(ss->connection->write, &ngx_posted_events);
         }
     }
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h
index 11c27d4..cb21eb2 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h
@@ -22,6 +22,8 @@ ngx_rtmp_mpegts_gen_pmt(ngx_int_t vcodec, ngx_int_t acodec,
 ngx_int_t
 ngx_mpegts_live_video_filter(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame);
 ngx_int_t
+ngx_mpegts_live_flush_audio(ngx_rtmp_session_t *s);
+ngx_int_t
 ngx_mpegts_live_audio_filter(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame);
 
 extern u_char ngx_rtmp_mpegts_pat[];
-- 
2.43.0


From f65cbb6621bc77b372841e11975d8ba86500e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 084/110] fix: mpegts: negative composition time

---
 .../mpegts/ngx_mpegts_live_module.c                | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 46296e6..f370aba 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -910,6 +910,11 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
 
+    /* composition time is a signed 24-bit value */
+    if (cts & 0x00800000) {
+        cts |= 0xFF000000;
+    }
+
     ngx_memzero(&out, sizeof(out));
 
     out.start = buffer;
@@ -1125,7 +1130,7 @@ NAL_TRAIL_N:
     frame->cc = ctx->video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
     /* pts = dts + composition time */
-    frame->pts = frame->dts + cts * 90;
+    frame->pts = frame->dts + (int64_t) (int32_t) cts * 90;
     /* program id */
     frame->pid = 0x100;
     /* stream id, video range from 0xe0 to 0xef */
@@ -1243,6 +1248,11 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
 
+    /* composition time is a signed 24-bit value */
+    if (cts & 0x00800000) {
+        cts |= 0xFF000000;
+    }
+
     ngx_memzero(&out, sizeof(out));
 
     out.start = buffer;
@@ -1361,7 +1371,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
 
     frame->cc = ctx->video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
-    frame->pts = frame->dts + (cts * 90);
+    frame->pts = frame->dts + (int64_t) (int32_t) cts * 90;
     frame->pid = 0x100;
     frame->sid = 0xe0;
     frame->key = (ftype == 1);
-- 
2.43.0


From 9a538992e5303435f1a5a957dd40ce42f2ed71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 085/110] fix: mpegts: use the codec header of a configuration
 change

---
 .../mpegts/ngx_mpegts_live_module.c           | 47 ++++++++++++++++---
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index f370aba..adb2bb2 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -542,6 +542,22 @@ ngx_mpegts_live_append_sps_pps(ngx_rtmp_session_t *s, ngx_buf_t *out)
 }
 
 
+static void
+ngx_mpegts_live_reset_codec(ngx_mpegts_live_ctx_t *ctx, ngx_uint_t audio,
+    ngx_uint_t video)
+{
+    if (audio && ctx->aac_codec && ctx->aac_codec->aac_header) {
+        ngx_rtmp_shared_free_frame(ctx->aac_codec->aac_header);
+        ctx->aac_codec->aac_header = NULL;
+    }
+
+    if (video && ctx->avc_codec && ctx->avc_codec->avc_header) {
+        ngx_rtmp_shared_free_frame(ctx->avc_codec->avc_header);
+        ctx->avc_codec->avc_header = NULL;
+    }
+}
+
+
 static ngx_int_t
 ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
 {
@@ -551,7 +567,7 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    if (ctx->aac_codec) {
+    if (ctx->aac_codec && ctx->aac_codec->aac_header) {
         return NGX_OK;
     }
 
@@ -561,7 +577,10 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
         return NGX_AGAIN;
     }
 
-    ctx->aac_codec = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_live_aac_codec_t));
+    if (ctx->aac_codec == NULL) {
+        ctx->aac_codec = ngx_pcalloc(s->pool,
+                                     sizeof(ngx_mpegts_live_aac_codec_t));
+    }
     if (ctx->aac_codec == NULL) {
         ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                    "rtmp-mpegts: aac_codec| alloc mpegts aac_codec failed");
@@ -586,7 +605,7 @@ ngx_mpegts_live_init_avc_codec(ngx_rtmp_session_t *s)
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    if (ctx->avc_codec) {
+    if (ctx->avc_codec && ctx->avc_codec->avc_header) {
         return NGX_OK;
     }
 
@@ -596,7 +615,10 @@ ngx_mpegts_live_init_avc_codec(ngx_rtmp_session_t *s)
         return NGX_AGAIN;
     }
 
-    ctx->avc_codec = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_live_avc_codec_t));
+    if (ctx->avc_codec == NULL) {
+        ctx->avc_codec = ngx_pcalloc(s->pool,
+                                     sizeof(ngx_mpegts_live_avc_codec_t));
+    }
     if (ctx->avc_codec == NULL) {
         ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                    "rtmp-mpegts: avc_codec| alloc mpegts avc_codec failed");
@@ -861,7 +883,7 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->avc_codec == NULL) {
+    if (ctx->avc_codec == NULL || ctx->avc_codec->avc_header == NULL) {
         rc = ngx_mpegts_live_init_avc_codec(s);
         if (rc == NGX_ERROR) {
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
@@ -897,6 +919,10 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
 
     /* proceed only with PICT */
 
+    if (htype == 0) { /* copy the new header before the next picture */
+        ngx_mpegts_live_reset_codec(ctx, 0, 1);
+    }
+
     if (htype != 1) { /*0:AVC sequence header,1:AVC NALU 2:AVC end of sequence*/
         return NGX_OK;
     }
@@ -1200,7 +1226,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->avc_codec == NULL) {
+    if (ctx->avc_codec == NULL || ctx->avc_codec->avc_header == NULL) {
         rc = ngx_mpegts_live_init_avc_codec(s);
         if (rc == NGX_ERROR) {
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
@@ -1235,6 +1261,10 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
 
     /* proceed only with PICT */
 
+    if (htype == 0) { /* copy the new header before the next picture */
+        ngx_mpegts_live_reset_codec(ctx, 0, 1);
+    }
+
     if (htype != 1) {
         return NGX_OK;
     }
@@ -1487,7 +1517,7 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->aac_codec == NULL) {
+    if (ctx->aac_codec == NULL || ctx->aac_codec->aac_header == NULL) {
         rc = ngx_mpegts_live_init_aac_codec(s);
         if (rc == NGX_ERROR) {
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
@@ -1499,6 +1529,7 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     }
 
     if (ngx_rtmp_is_codec_header(in)) {
+        ngx_mpegts_live_reset_codec(ctx, 1, 0);
         return NGX_OK;
     }
 
@@ -1850,6 +1881,8 @@ ngx_mpegts_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         goto next;
     }
 
+    ngx_mpegts_live_reset_codec(ctx, 1, 1);
+
     if (ctx->stream == NULL) {
         ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                 "mpegts-live: close_stream| not joined");
-- 
2.43.0


From fb30cebfd6dbb4f769c7bbf7d2a2a06c8a79508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 086/110] fix: mpegts: do not send the cached audio again for a
 frame before the first key frame

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 270c1f3..b014a45 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -361,7 +361,7 @@ ngx_mpegts_gop_cache(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
     if (ctx->keyframe == NULL && frame->type == NGX_MPEGTS_MSG_VIDEO
             && !frame->key)
     {
-        return NGX_OK;
+        return NGX_DECLINED;
     }
 
     /* video intra_frame */
@@ -706,7 +706,9 @@ static ngx_int_t
 ngx_mpegts_gop_av(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 {
     if (frame->type == NGX_MPEGTS_MSG_VIDEO) {
-        ngx_mpegts_gop_cache(s, frame);
+        if (ngx_mpegts_gop_cache(s, frame) == NGX_DECLINED) {
+            return NGX_OK; /* nothing new for the players */
+        }
 
         return next_mpegts_video(s, frame);
     } else if (frame->type == NGX_MPEGTS_MSG_AUDIO) {
-- 
2.43.0


From 4725a11513b46b0b1d0ac8240aa51d832cfe8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 087/110] fix: codec: metadata without a codec id does not
 change the codec

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 1d42df5..b6421c4 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -1361,6 +1361,7 @@ ngx_rtmp_codec_meta_data(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     /* use -1 as a sign of unchanged data;
      * 0 is a valid value for uncompressed audio */
     v.audio_codec_id_n = -1;
+    v.video_codec_id_n = -1;
 
     /* FFmpeg sends a string in front of actal metadata; ignore it */
     skip = !(in->buf->last > in->buf->pos
@@ -1378,11 +1379,14 @@ ngx_rtmp_codec_meta_data(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ctx->duration = (ngx_uint_t) v.duration;
     ctx->frame_rate = v.frame_rate;
     ctx->video_data_rate = (ngx_uint_t) v.video_data_rate;
-    ctx->video_codec_id = (ngx_uint_t) v.video_codec_id_n;
+    if (v.video_codec_id_n != -1) {
+        ctx->video_codec_id = (ngx_uint_t) v.video_codec_id_n;
+    }
     ctx->audio_data_rate = (ngx_uint_t) v.audio_data_rate;
-    ctx->audio_codec_id = (v.audio_codec_id_n == -1
-            ? 0 : v.audio_codec_id_n == 0
+    if (v.audio_codec_id_n != -1) {
+        ctx->audio_codec_id = (v.audio_codec_id_n == 0
             ? NGX_RTMP_AUDIO_UNCOMPRESSED : (ngx_uint_t) v.audio_codec_id_n);
+    }
     ngx_memcpy(ctx->profile, v.profile, sizeof(v.profile));
     ngx_memcpy(ctx->level, v.level, sizeof(v.level));
 
-- 
2.43.0


From e2118455cfa82b652a4b58c74cfac403523fd8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:07 +0000
Subject: [PATCH 088/110] fix: an abort message was ignored, the message in
 progress went on with the bytes of the next one

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 30 ++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index 475f339..b01a275 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -29,6 +29,35 @@ ngx_rtmp_gather(ngx_chain_t *in, u_char *dst, size_t size)
 }
 
 
+static void
+ngx_rtmp_abort_message(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
+        uint32_t csid)
+{
+    ngx_rtmp_core_srv_conf_t   *cscf;
+    ngx_rtmp_stream_t          *st, *st0;
+    ngx_chain_t                *head;
+
+    cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
+
+    if (csid < 2 || csid >= (uint32_t) cscf->max_streams || csid == h->csid) {
+        return;
+    }
+
+    st = &s->in_streams[csid];
+    if (st->in == NULL) {
+        return;
+    }
+
+    /* the message in progress is dropped, its bufs go to stream #0 */
+    st0 = &s->in_streams[0];
+    head = st->in->next;
+    st->in->next = st0->in;
+    st0->in = head;
+    st->in = NULL;
+    st->len = 0;
+}
+
+
 ngx_int_t
 ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
         ngx_rtmp_header_t *h, ngx_chain_t *in)
@@ -61,6 +90,7 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
 
         case NGX_RTMP_MSG_ABORT:
             /* abort chunk stream =val */
+            ngx_rtmp_abort_message(s, h, val);
             break;
 
         case NGX_RTMP_MSG_ACK:
-- 
2.43.0


From 9f4657487d02ee4386d4f21ebc7756067ec16883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 089/110] fix: live: a player whose first key frame was dropped
 was sent the frames after it

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index b7641c6..34b7d41 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -678,7 +678,7 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_live_app_conf_t       *lacf;
     ngx_rtmp_session_t             *ss;
     ngx_rtmp_header_t               ch, lh, clh;
-    ngx_int_t                       rc, mandatory, dummy_audio;
+    ngx_int_t                       rc, mandatory, dummy_audio, start;
     ngx_uint_t                      prio;
     ngx_uint_t                      peers;
     ngx_uint_t                      meta_version;
@@ -901,6 +901,8 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         /* absolute packet */
 
+        start = !cs->active;
+
         if (!cs->active) {
 
             if (mandatory) {
@@ -992,6 +994,11 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
             cs->dropped += delta;
 
+            if (start) {
+                /* the frame to start from is lost, wait for another */
+                cs->active = 0;
+            }
+
             if (mandatory) {
                 ngx_log_debug0(NGX_LOG_DEBUG_RTMP, ss->log, 0,
                                "live: mandatory packet failed");
-- 
2.43.0


From 498bbc5f8e25e42080ea910c4b4f6856edd51280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 090/110] fix: metadata sent as plain onMetaData loses its name
 with meta copy

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index b6421c4..810ced3 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -1203,6 +1203,10 @@ ngx_rtmp_codec_copy_meta(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 {
     ngx_rtmp_codec_ctx_t      *ctx;
     ngx_rtmp_core_srv_conf_t  *cscf;
+    ngx_chain_t                name;
+    ngx_buf_t                  buf;
+
+    static u_char              prefix[] = "\x02\0\x0aonMetaData";
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
@@ -1212,6 +1216,19 @@ ngx_rtmp_codec_copy_meta(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         ngx_rtmp_shared_free_frame(ctx->meta);
     }
 
+    /* metadata sent as plain onMetaData has lost its name to the dispatcher */
+    if (in->buf->last > in->buf->pos
+            && *in->buf->pos != NGX_RTMP_AMF_STRING)
+    {
+        ngx_memzero(&buf, sizeof(buf));
+        buf.start = buf.pos = prefix;
+        buf.end = buf.last = prefix + sizeof(prefix) - 1;
+
+        name.buf = &buf;
+        name.next = in;
+        in = &name;
+    }
+
     ctx->meta = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, in, 0);
 
     if (ctx->meta == NULL) {
-- 
2.43.0


From c9e70f79ad35f5181a8116e75e7c8fd81269f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 091/110] fix: metadata is dropped when a chunk ends right
 after its function name

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 810ced3..7c1ebcc 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -1380,6 +1380,11 @@ ngx_rtmp_codec_meta_data(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     v.audio_codec_id_n = -1;
     v.video_codec_id_n = -1;
 
+    /* the name may have ended exactly at the end of a chunk */
+    while (in->buf->pos == in->buf->last && in->next) {
+        in = in->next;
+    }
+
     /* FFmpeg sends a string in front of actal metadata; ignore it */
     skip = !(in->buf->last > in->buf->pos
             && *in->buf->pos == NGX_RTMP_AMF_STRING);
-- 
2.43.0


From 5a3ab18f84ed9108e741c6f718474346578b13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 092/110] fix: http dynamic: crash on a look-up in a dynamic
 configuration without http block

---
 modules/nginx-toolkit-module/ngx_http_dynamic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_http_dynamic.c b/modules/nginx-toolkit-module/ngx_http_dynamic.c
index 440e744..d32ac0d 100644
--- a/modules/nginx-toolkit-module/ngx_http_dynamic.c
+++ b/modules/nginx-toolkit-module/ngx_http_dynamic.c
@@ -1621,7 +1621,7 @@ ngx_http_get_module_main_dconf(ngx_http_request_t *r, ngx_module_t *m)
     ngx_http_dynamic_conf_t                *hdcf;
 
     hdcf = ngx_get_dconf(&ngx_http_dynamic_module);
-    if (hdcf == NULL) {
+    if (hdcf == NULL || hdcf->main_conf == NULL) {
         return NULL;
     }
 
-- 
2.43.0


From a6787f61ca60b44c0ff39a8b7646f520804fb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 093/110] fix: dynamic configuration: a block without server
 made every look-up read a server out of nowhere

---
 modules/nginx-rtmp-module/ngx_rtmp_dynamic.c    | 7 ++++++-
 modules/nginx-toolkit-module/ngx_http_dynamic.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
index fd92cad..e4cb860 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
@@ -350,7 +350,9 @@ ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf,
     }
 
     rdcscfp = rdcmcf->servers.elts;
-    rdcmcf->default_server = rdcscfp[0];
+    if (rdcmcf->servers.nelts) {
+        rdcmcf->default_server = rdcscfp[0];
+    }
 
     for (s = 0; s < rdcmcf->servers.nelts; ++s) {
 
@@ -936,6 +938,9 @@ ngx_rtmp_get_module_srv_dconf(ngx_rtmp_session_t *s, ngx_module_t *m)
     case NGX_ERROR:
         return NULL;
     case NGX_DECLINED:  /* virtual server not found */
+        if (rdcmcf->default_server == NULL) { /* no server configured */
+            return NULL;
+        }
         return rdcmcf->default_server->srv_conf[m->ctx_index];
     default:
         return rdcscf->srv_conf[m->ctx_index];
diff --git a/modules/nginx-toolkit-module/ngx_http_dynamic.c b/modules/nginx-toolkit-module/ngx_http_dynamic.c
index d32ac0d..5e12bd5 100644
--- a/modules/nginx-toolkit-module/ngx_http_dynamic.c
+++ b/modules/nginx-toolkit-module/ngx_http_dynamic.c
@@ -1051,7 +1051,9 @@ ngx_http_dynamic_core_init_virtual_servers(ngx_conf_t *cf,
     }
 
     hdcscfp = hdcmcf->servers.elts;
-    hdcmcf->default_server = hdcscfp[0];
+    if (hdcmcf->servers.nelts) {
+        hdcmcf->default_server = hdcscfp[0];
+    }
 
     for (s = 0; s < hdcmcf->servers.nelts; ++s) {
 
@@ -1645,6 +1647,9 @@ ngx_http_get_module_srv_dconf(ngx_http_request_t *r, ngx_module_t *m)
     case NGX_ERROR:
         return NULL;
     case NGX_DECLINED:  /* virtual server not found */
+        if (hdcmcf->default_server == NULL) { /* no server configured */
+            return NULL;
+        }
         return hdcmcf->default_server->srv_conf[m->ctx_index];
     default:
         return hdcscf->srv_conf[m->ctx_index];
-- 
2.43.0


From 176a12ef97b106a5fe0198c948d2438aaca09533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 094/110] fix: dynamic configuration: heap overflow with a
 regular expression

---
 modules/nginx-toolkit-module/ngx_dynamic_conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_conf.c b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
index fd8f15b..669f07d 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_conf.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
@@ -924,7 +924,7 @@ ngx_dynamic_regex_compile(ngx_conf_t *cf, ngx_regex_compile_t *rc)
         return NULL;
     }
 
-    re = ngx_pcalloc(cf->pool, sizeof(ngx_regex_elt_t));
+    re = ngx_pcalloc(cf->pool, sizeof(ngx_dynamic_regex_t));
     if (re == NULL) {
         return NULL;
     }
-- 
2.43.0


From 1539d1b0dd40bfd56824dfcd746014c67650c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:13 +0000
Subject: [PATCH 095/110] fix: http dynamic: regex locations never matched, the
 look-up found nothing

---
 modules/nginx-toolkit-module/ngx_http_dynamic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_http_dynamic.c b/modules/nginx-toolkit-module/ngx_http_dynamic.c
index 5e12bd5..502a2e8 100644
--- a/modules/nginx-toolkit-module/ngx_http_dynamic.c
+++ b/modules/nginx-toolkit-module/ngx_http_dynamic.c
@@ -999,7 +999,7 @@ ngx_http_dynamic_core_find_location(ngx_http_request_t *r,
 
             n = ngx_regex_exec((*hdclcfp)->regex->regex, &r->uri, NULL, 0);
 
-            if (n == NGX_OK) {
+            if (n >= 0) {
                 *hdclcf = (*hdclcfp)->
                             loc_conf[ngx_http_dynamic_core_module.ctx_index];
 
-- 
2.43.0


From 0e90ee8dafa9c50c097c7c133a5c20577bf44316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 096/110] fix: http broadcast: a nested location inherits the
 prefix to rewrite without its replacement

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index ffac1a5..107ab67 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -118,7 +118,7 @@ ngx_http_broadcast_merge_conf(ngx_conf_t *cf, void *parent, void *child)
     ngx_conf_merge_str_value(conf->multiport, prev->multiport, "");
     ngx_conf_merge_str_value(conf->uri, prev->uri, "");
     ngx_conf_merge_str_value(conf->prefix, prev->prefix, "");
-    ngx_conf_merge_str_value(conf->prefix, prev->new_prefix, "");
+    ngx_conf_merge_str_value(conf->new_prefix, prev->new_prefix, "");
     ngx_conf_merge_str_value(conf->suffix, prev->suffix, "");
 
     return NGX_CONF_OK;
-- 
2.43.0


From d0b311c9458ee1f8aed90a0c2c0d8c0e45c72619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 097/110] fix: http broadcast: the list of directives has no
 end

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index 107ab67..49ebfcd 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -57,7 +57,9 @@ static ngx_command_t  ngx_http_broadcast_commands[] = {
       ngx_conf_set_str_slot,
       NGX_HTTP_LOC_CONF_OFFSET,
       offsetof(ngx_http_broadcast_conf_t, suffix),
-      NULL }
+      NULL },
+
+      ngx_null_command
 };
 
 
-- 
2.43.0


From 185e0f2c5958aaa20ba07f4645c84bb777f85c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:51 +0000
Subject: [PATCH 098/110] fix: http flv/ts: a stream name or argument of 256
 bytes is taken without its end

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 4 ++--
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 05e1853..c88cac1 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -468,7 +468,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_http_flv_live_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "http flv live, url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -532,7 +532,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index b87bb95..132867d 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -294,7 +294,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_mpegts_http_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "mpegts-http: http_parse| url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -358,7 +358,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
-- 
2.43.0


From 8decf9c3842cd0fd3b2adef8ffe68a89d1a27973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:51 +0000
Subject: [PATCH 099/110] fix: hls2: a long stream name or session in a request
 overflows the stack

---
 .../nginx-rtmp-module/mpegts/ngx_hls_http_module.c   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 390c7ed..1aecf58 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -510,7 +510,9 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 
     ngx_hls_http_ctx_init(r, addr_conf);
 
-    if (ctx->app.len == 0 || ctx->name.len == 0) {
+    if (ctx->app.len == 0 || ctx->name.len == 0
+        || ctx->name.len >= NGX_RTMP_MAX_NAME)
+    {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
             "hls-http: create_ctx| parse app or name failed, uri %V", &r->uri);
         return NULL;
@@ -519,6 +521,12 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
     ngx_http_arg(r, NGX_HLS_LIVE_ARG_SESSION, NGX_HLS_LIVE_ARG_SESSION_LENGTH,
         &ctx->sid);
 
+    if (ctx->sid.len >= NGX_RTMP_MAX_SESSION) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+            "hls-http: create_ctx| session too long, uri %V", &r->uri);
+        return NULL;
+    }
+
     return ctx;
 }
 
@@ -638,7 +646,7 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-            ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+            ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_memcpy(v->session, ctx->sid.data, ctx->sid.len);
-- 
2.43.0


From 1d8d06958cd270c49fe052e6f6b7a7a6c289435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:06 +0000
Subject: [PATCH 100/110] fix: hls2: crash on a playlist request without Host

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 1aecf58..185b535 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -292,7 +292,9 @@ ngx_hls_http_master_m3u8_handler(ngx_http_request_t *r,
     ngx_str_t                            https = ngx_string("https");
     u_char                              *p;
 
-    host = r->headers_in.host->value;
+    /* HTTP/1.0 requests may have no Host */
+    host = r->headers_in.host ? r->headers_in.host->value
+                              : r->headers_in.server;
 
     rc = ngx_http_discard_request_body(r);
     if (rc != NGX_OK) {
@@ -399,7 +401,9 @@ ngx_hls_http_redirect_handler(ngx_http_request_t *r,
     ngx_str_t                            https = ngx_string("https");
     u_char                              *p;
 
-    host = r->headers_in.host->value;
+    /* HTTP/1.0 requests may have no Host */
+    host = r->headers_in.host ? r->headers_in.host->value
+                              : r->headers_in.server;
 
     rc = ngx_http_discard_request_body(r);
     if (rc != NGX_OK) {
-- 
2.43.0


From 6e4c6e4a34224da3fb6962a45d8ad3f853ec33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 101/110] fix: hls2: with AAC audio no segment is ever cut at a
 key frame

The condition waited for ctx->aframe, which nothing fills: a stream with
video and AAC audio got its first playlist only after minfrags times
hls2_max_fragment, with segments that do not begin with a key frame.
---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index efab067..a1c8583 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -913,9 +913,6 @@ ngx_hls_live_update(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *codec_ctx)
     ngx_hls_live_ctx_t   *ctx;
     ngx_mpegts_frame_t   *frame;
     ngx_int_t             boundary;
-    ngx_buf_t            *b;
-
-    b = NULL;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
 
@@ -934,10 +931,7 @@ ngx_hls_live_update(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *codec_ctx)
         if (frame->type == NGX_MPEGTS_MSG_AUDIO) {
             boundary = codec_ctx->avc_header == NULL;
         } else if (frame->type == NGX_MPEGTS_MSG_VIDEO) {
-            b = ctx->aframe;
-            boundary = frame->key &&
-                (codec_ctx->aac_header == NULL || !ctx->opened ||
-                (b && b->last > b->pos));
+            boundary = frame->key;
         } else {
             return NGX_ERROR;
         }
-- 
2.43.0


From 266d99947e8144f786c68d59ca6a909d92775b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 102/110] fix: hls2: a frame before the first segment blocks
 the session for ever

With hls2_fragment_slicing aligned (or audio before the first key frame)
the frame was neither written nor taken from the queue.
---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index a1c8583..d24c8a0 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -941,12 +941,10 @@ ngx_hls_live_update(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *codec_ctx)
 
         ngx_hls_live_update_fragment(s, frame->pts, boundary);
 
-        if (!ctx->opened) {
-            break;
+        if (ctx->opened) {
+            ngx_hls_live_write_frame(s, frame);
         }
 
-        ngx_hls_live_write_frame(s, frame);
-
         ngx_rtmp_shared_free_mpegts_frame(frame);
 
         ++s->out_pos;
-- 
2.43.0


From dd0429c814d17e61c3bdafbbba46c86f7ce7e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 103/110] fix: hls2: a request gets the segment still being
 written or another one

The open segment was sent with the frames it had so far (or, with a
length taken before, with more than Content-Length), and a slot of the
ring that already holds another segment was sent for the number asked.
---
 .../nginx-rtmp-module/mpegts/ngx_hls_live_module.c  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index d24c8a0..605a61c 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -275,6 +275,7 @@ ngx_hls_live_find_frag(ngx_rtmp_session_t *s, ngx_str_t *name)
     ngx_hls_live_ctx_t        *ctx;
     u_char                    *p0, *p1, *e;
     ngx_uint_t                 frag_id;
+    ngx_int_t                  n;
     ngx_hls_live_frag_t       *frag;
     ngx_hls_live_app_conf_t   *hacf;
 
@@ -299,11 +300,16 @@ ngx_hls_live_find_frag(ngx_rtmp_session_t *s, ngx_str_t *name)
 
     p0 = e + 1;
 
-    frag_id = ngx_atoi(p0, p1 - p0);
+    n = ngx_atoi(p0, p1 - p0);
+    if (n == NGX_ERROR) {
+        return NULL;
+    }
+
+    frag_id = n;
 
     hacf = ngx_rtmp_get_module_app_conf(s, ngx_hls_live_module);
 
-    if (frag_id > ctx->nfrag + ctx->nfrags ||
+    if (frag_id >= ctx->nfrag + ctx->nfrags ||
         ctx->nfrag + ctx->nfrags - frag_id > hacf->winfrags * 2 + 1)
     {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -313,6 +319,9 @@ ngx_hls_live_find_frag(ngx_rtmp_session_t *s, ngx_str_t *name)
     }
 
     frag = ctx->frags[frag_id % (hacf->winfrags * 2 + 1)];
+    if (frag == NULL || frag->id != frag_id) {
+        return NULL;
+    }
 
     ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
         "hls-live: find_frag| find frag %p [%d] [frag %d] length %ui",
-- 
2.43.0


From 27c1d541bd7ca0af3109b107454bee4828fe3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 104/110] fix: hls2: streams with '-' or '.' in the name cannot
 be fetched

The name ended at the first '-' (segments) or '.' (playlists), so the
segments such a playlist lists were answered 404.
---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 185b535..40eb0fd 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -190,14 +190,15 @@ ngx_hls_http_ctx_init(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
     p++;
     name->data = p;
     if (ngx_strncmp(&e[-5], ".m3u8", 5) == 0) {
-        p = ngx_strlchr(p, e, '.');
+        p = e - 5;
     } else if (ngx_strncmp(&e[-3], ".ts", 3) == 0) {
-        p = ngx_strlchr(p, e, '-');
+        for (p = e; p > name->data && *p != '-'; p--) { /* void */ }
+        p = p > name->data ? p : NULL;
     } else {
         p = NULL;
     }
 
-    if (p == NULL) {
+    if (p == NULL || p <= name->data) {
         name->data = NULL;
         name->len = 0;
 
-- 
2.43.0


From 1cb514d529a3fe39fc5a95b87872f78278a10b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 105/110] fix: hls2: a timestamp slightly before its segment
 gives a huge duration

The unsigned difference made the segment look complete: it was cut and
listed with EXTINF:204963823041217.
---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 605a61c..4b772df 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -858,7 +858,7 @@ ngx_hls_live_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
                 discont = 0;
 //            }
         } else {
-            frag->duration = (ts - ctx->frag_ts) / 90000.;
+            frag->duration = d > 0 ? d / 90000. : 0;
             discont = 0;
         }
     }
-- 
2.43.0


From d1ae0f03b71e3f2a25ef65740a17743ecf263d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:53 +0000
Subject: [PATCH 106/110] fix: hls2: requests of one session overwrite each
 other and outlive it

The session kept one request. A second playlist request left the first
one without an answer, the end of any request made the session forget
the others, and a segment still being sent when the session was closed
(or when its timeout passed) went on with the freed session. The session
now keeps the list of its requests; a segment is held from the moment
the request refers to it, and unsent buffers are given back.
---
 .../mpegts/ngx_hls_http_module.c              | 162 +++++++++++-------
 .../mpegts/ngx_hls_live_module.c              |   1 +
 .../mpegts/ngx_hls_live_module.h              |   3 +
 3 files changed, 107 insertions(+), 59 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 40eb0fd..e11d08b 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -53,6 +53,8 @@ typedef struct {
     ngx_uint_t                  out_last;
     ngx_chain_t                *out_chain;
     ngx_hls_live_frag_t        *frag;
+    ngx_http_request_t         *request;
+    ngx_queue_t                 queue;   /* in requests of the session */
 } ngx_hls_http_ctx_t;
 
 
@@ -536,6 +538,16 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 }
 
 
+static void
+ngx_hls_http_detach(ngx_hls_http_ctx_t *ctx)
+{
+    if (ctx->session) {
+        ngx_queue_remove(&ctx->queue);
+        ctx->session = NULL;
+    }
+}
+
+
 static void
 ngx_hls_http_cleanup(void *data)
 {
@@ -543,14 +555,10 @@ ngx_hls_http_cleanup(void *data)
     ngx_hls_http_ctx_t   *ctx;
     ngx_chain_t          *cl;
 
-    r = data;
-    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-
-    if (!ctx) {
-        return;
-    }
+    ctx = data;
+    r = ctx->request;
 
-    if (ctx->out_chain == NULL) {
+    if (ctx->out_chain) {
         cl = ctx->out_chain;
         while (cl) {
             ctx->out_chain = cl->next;
@@ -561,10 +569,7 @@ ngx_hls_http_cleanup(void *data)
 
     ctx->content_pos = 0;
 
-    if (ctx->session) {
-        ctx->session->request = NULL;
-        ctx->session->connection = NULL;
-    }
+    ngx_hls_http_detach(ctx);
 
     ngx_log_error(NGX_LOG_DEBUG, r->connection->log, 0,
             "hls-http: cleanup_handler| http cleanup");
@@ -578,6 +583,33 @@ ngx_hls_http_cleanup(void *data)
 }
 
 
+static ngx_int_t
+ngx_hls_http_attach(ngx_http_request_t *r, ngx_hls_http_ctx_t *ctx,
+    ngx_rtmp_session_t *s)
+{
+    ngx_hls_live_ctx_t         *hctx;
+    ngx_http_cleanup_t         *cln;
+
+    hctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
+    if (hctx == NULL) {
+        return NGX_ERROR;
+    }
+
+    cln = ngx_http_cleanup_add(r, 0);
+    if (cln == NULL) {
+        return NGX_ERROR;
+    }
+    cln->handler = ngx_hls_http_cleanup;
+    cln->data = ctx;
+
+    ctx->request = r;
+    ctx->session = s;
+    ngx_queue_insert_tail(&hctx->requests, &ctx->queue);
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
         ngx_rtmp_play_t *v)
@@ -791,9 +823,9 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
         }
     }
 
-    s->request = r;
-
-    ctx->session = s;
+    if (ngx_hls_http_attach(r, ctx, s) != NGX_OK) {
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+    }
 
     if (!ctx->m3u8) {
         ctx->m3u8 = ngx_pcalloc(r->connection->pool, sizeof(ngx_chain_t));
@@ -1048,8 +1080,9 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
             "hls-http: ts_handler| hls session %V not found", &ctx->sid);
         return NGX_DECLINED;
     }
-    ctx->session = s;
-    s->request = r;
+    if (ngx_hls_http_attach(r, ctx, s) != NGX_OK) {
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+    }
 
 //    ngx_rtmp_set_combined_log(s, r->connection->log->data,
 //            r->connection->log->handler);
@@ -1068,6 +1101,7 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
         return NGX_HTTP_NOT_FOUND;
     }
 
+    ngx_rtmp_shared_acquire_frag(frag);
     ctx->frag = frag;
 
     r->headers_out.content_length_n = frag->length;
@@ -1081,8 +1115,6 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
 
-    ngx_rtmp_shared_acquire_frag(frag);
-
     if (1) {
         r->write_event_handler = ngx_hls_http_write_handler;
 
@@ -1109,9 +1141,7 @@ ngx_hls_http_handler(ngx_http_request_t *r)
 {
     ngx_hls_http_loc_conf_t    *hlcf;
     ngx_int_t                   rc;
-    ngx_http_cleanup_t         *cln;
     ngx_str_t                   sstr;
-    ngx_hls_http_ctx_t         *ctx;
 
     hlcf = ngx_http_get_module_loc_conf(r, ngx_hls_http_module);
 
@@ -1137,16 +1167,7 @@ ngx_hls_http_handler(ngx_http_request_t *r)
         return NGX_DECLINED;
     }
 
-    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-    if (!ctx) {
-        cln = ngx_http_cleanup_add(r, 0);
-        if (cln == NULL) {
-            return NGX_HTTP_INTERNAL_SERVER_ERROR;
-        }
-        cln->handler = ngx_hls_http_cleanup;
-        cln->data = r;
-        r->read_event_handler = ngx_http_test_reading;
-    }
+    r->read_event_handler = ngx_http_test_reading;
 
     if(!ngx_strncmp(r->uri.data + r->uri.len - 5, ".m3u8", 5)) {
 
@@ -1170,21 +1191,15 @@ ngx_hls_http_handler(ngx_http_request_t *r)
     return NGX_DECLINED;
 }
 
-static ngx_int_t
-ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
+static void
+ngx_hls_http_send_m3u8(ngx_rtmp_session_t *s, ngx_hls_http_ctx_t *ctx)
 {
     ngx_http_request_t                 *r;
     ngx_int_t                           rc;
-    ngx_hls_http_ctx_t                 *ctx;
     ngx_buf_t                          *buf;
     ngx_chain_t                        *out;
 
-    r = s->request;
-    if (!r) {
-        return NGX_ERROR;
-    }
-
-    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
+    r = ctx->request;
 
     if (!ctx->m3u8) {
         ctx->m3u8 = ngx_pcalloc(r->connection->pool, sizeof(ngx_chain_t));
@@ -1209,45 +1224,74 @@ ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
     if (rc != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
             "hls-http: m3u8| send http header failed");
-        return rc;
+    } else {
+        rc = ngx_http_output_filter(r, out);
     }
 
-    rc = ngx_http_output_filter(r, out);
-    if (rc != NGX_OK) {
-        ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
-            "hls-http: m3u8| send http content failed");
-        return rc;
+    ngx_http_finalize_request(r, rc);
+}
+
+
+static ngx_int_t
+ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
+{
+    ngx_hls_live_ctx_t   *hctx;
+    ngx_hls_http_ctx_t   *ctx;
+    ngx_connection_t     *c;
+    ngx_queue_t          *q, *next;
+
+    hctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
+    if (hctx == NULL) {
+        return NGX_OK;
     }
 
-    ngx_http_finalize_request(r, NGX_HTTP_OK);
+    for (q = ngx_queue_head(&hctx->requests);
+         q != ngx_queue_sentinel(&hctx->requests);
+         q = next)
+    {
+        next = ngx_queue_next(q);
+        ctx = ngx_queue_data(q, ngx_hls_http_ctx_t, queue);
+
+        if (ctx->frag || ctx->request->header_sent) {
+            continue;
+        }
+
+        c = ctx->request->connection;
+        ngx_hls_http_send_m3u8(s, ctx);
+        ngx_http_run_posted_requests(c);
+    }
 
     return NGX_OK;
 }
 
+
 static ngx_int_t
 ngx_hls_http_close(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
-    ngx_http_request_t   *r;
+    ngx_hls_live_ctx_t   *hctx;
     ngx_hls_http_ctx_t   *ctx;
+    ngx_connection_t     *c;
+    ngx_queue_t          *q;
 
-    r = s->request;
-    if (!r) {
+    hctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
+    if (hctx == NULL) {
         return NGX_OK;
     }
 
-    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-    if (!ctx) {
-        return NGX_OK;
-    }
+    while (!ngx_queue_empty(&hctx->requests)) {
+        q = ngx_queue_head(&hctx->requests);
+        ctx = ngx_queue_data(q, ngx_hls_http_ctx_t, queue);
 
-    s->request = NULL;
-    s->connection = NULL;
-    ctx->session = NULL;
+        ngx_hls_http_detach(ctx);
 
-    ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
-        "hls-http: close| finalize http request");
+        c = ctx->request->connection;
 
-    ngx_http_finalize_request(r, NGX_HTTP_GONE);
+        ngx_log_error(NGX_LOG_INFO, c->log, 0,
+            "hls-http: close| finalize http request");
+
+        ngx_http_finalize_request(ctx->request, NGX_HTTP_GONE);
+        ngx_http_run_posted_requests(c);
+    }
 
     return NGX_OK;
 }
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 4b772df..7b05fd2 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -701,6 +701,7 @@ ngx_hls_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
     }
 
     ctx->session = s;
+    ngx_queue_init(&ctx->requests);
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0,
                    "mpegts-live: join| join '%s'", name);
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
index b019c88..74c0651 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
@@ -46,6 +46,8 @@ struct ngx_hls_live_frag_s {
     ngx_mpegts_frame_t     *content[0];
 };
 
+extern ngx_module_t  ngx_hls_live_module;
+
 struct ngx_hls_live_ctx_s {
     unsigned                opened:1;
     unsigned                playing:1;
@@ -79,6 +81,7 @@ struct ngx_hls_live_ctx_s {
     time_t                  playlist_modified_time;
     ngx_buf_t              *playlist;
     ngx_hls_live_ctx_t     *next;
+    ngx_queue_t             requests; /* http requests being answered */
 };
 
 ngx_int_t ngx_hls_live_write_playlist(ngx_rtmp_session_t *s, ngx_buf_t *out,
-- 
2.43.0


From bede5f24f77697d04270ab4988e603bd145be6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:35 +0000
Subject: [PATCH 107/110] fix: hls2: the answer to HEAD has a body

The bytes of the playlist or segment are taken for the next answer of
the connection.
---
 .../nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index e11d08b..22dfd99 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -384,6 +384,10 @@ ngx_hls_http_master_m3u8_handler(ngx_http_request_t *r,
                 "hls-http: master_m3u8_handler| redirect url %V", &m3u8_url);
     }
 
+    if (r->header_only) {
+        return rc;
+    }
+
     return ngx_http_output_filter(r, &out);
 }
 
@@ -858,6 +862,10 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
         }
     }
 
+    if (r->header_only) {
+        return NGX_OK;
+    }
+
     rc = ngx_http_output_filter(r, out);
     if (rc != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
@@ -1115,6 +1123,10 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
 
+    if (r->header_only) {
+        return NGX_OK;
+    }
+
     if (1) {
         r->write_event_handler = ngx_hls_http_write_handler;
 
@@ -1224,7 +1236,7 @@ ngx_hls_http_send_m3u8(ngx_rtmp_session_t *s, ngx_hls_http_ctx_t *ctx)
     if (rc != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
             "hls-http: m3u8| send http header failed");
-    } else {
+    } else if (!r->header_only) {
         rc = ngx_http_output_filter(r, out);
     }
 
-- 
2.43.0


From d723c19f7a579164ef7c9065723c6efad7978b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:38 +0000
Subject: [PATCH 108/110] fix: hls2_timeout has no effect

Its value was overwritten with three times hls2_playlist_length.
---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 7b05fd2..0ea6447 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -727,7 +727,8 @@ ngx_hls_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
     ctx->ev.data = s;
     ctx->ev.handler = ngx_hls_live_timeout;
     ctx->ev.log = s->log;
-    ctx->timeout = hacf->timeout;
+    ctx->timeout = hacf->timeout != NGX_CONF_UNSET_MSEC ? hacf->timeout
+                                                       : hacf->playlen * 3;
 
     ngx_add_timer(&ctx->ev, (ctx->timeout + 3000)/2);
 
@@ -1067,7 +1068,9 @@ ngx_hls_live_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
     ngx_conf_merge_str_value(conf->base_url, prev->base_url, "");
     ngx_conf_merge_uint_value(conf->minfrags, prev->minfrags, 2);
 
-    conf->timeout = conf->playlen * 3;
+    if (conf->timeout == NGX_CONF_UNSET_MSEC) {
+        conf->timeout = prev->timeout;
+    }
 
     if (conf->fraglen) {
         conf->winfrags = conf->playlen / conf->fraglen;
-- 
2.43.0


From 919de994e2db1d24100416eed0ccae88398db480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:31 +0000
Subject: [PATCH 109/110] fix: hls2: segments of a session that joined late
 lack frames

The session took the frames of one playlist length from the cache and
then one frame per new frame: the rest stayed behind and was lost when
the cache dropped its oldest group of pictures.
---
 .../mpegts/ngx_mpegts_gop_module.c                 | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index b014a45..81b3ef4 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -664,12 +664,16 @@ ngx_mpegts_gop_link(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         ssctx->gop_pos = sctx->gop_pos;
     }
 
-    frame = sctx->cache[ssctx->gop_pos];
-    if (ngx_mpegts_gop_link_frame(ss, frame) == NGX_AGAIN) {
-        return NGX_AGAIN;
-    }
+    /* all there is: what is left behind may be dropped from the cache */
+    for (frame = sctx->cache[ssctx->gop_pos]; frame;
+         frame = sctx->cache[ssctx->gop_pos])
+    {
+        if (ngx_mpegts_gop_link_frame(ss, frame) == NGX_AGAIN) {
+            return NGX_AGAIN;
+        }
 
-    ssctx->gop_pos = ngx_mpegts_gop_next(s, ssctx->gop_pos);
+        ssctx->gop_pos = ngx_mpegts_gop_next(s, ssctx->gop_pos);
+    }
 
     return NGX_OK;
 }
-- 
2.43.0


From 36c800c163f2bee24ab5e8afa763eeffc06b110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:01 +0000
Subject: [PATCH 110/110] fix: hls2: a session that joins may lose the frames
 after its first playlist

The frames that did not fit one playlist length were left for the next
frame, which may drop them from the cache.
---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 81b3ef4..7f526c7 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -649,13 +649,16 @@ ngx_mpegts_gop_link(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         ngx_rtmp_set_ctx(ss, ssctx, ngx_mpegts_gop_module);
     }
 
-    if (ngx_mpegts_gop_offset_frames(s, ss, time_offset, duration) == NGX_AGAIN)
+    if (ngx_mpegts_gop_offset_frames(s, ss, time_offset, duration) == NGX_AGAIN
+        && ssctx->send_gop != 2)
     {
         return NGX_OK;
     }
 
     /* new frame is video key frame */
-    if (sctx->cache[ssctx->gop_pos] == NULL) {
+    if (sctx->cache[ssctx->gop_pos] == NULL
+        && ssctx->gop_pos != sctx->gop_last)
+    {
         ngx_log_error(NGX_LOG_ERR, ss->log, 0,
                 "mpegts-gop: link| current gop pos is NULL, "
                 "skip to new postion [pos %d last %d] %d",
-- 
2.43.0

