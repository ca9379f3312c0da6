From 14e12c27968470278354ad333ecf90de0cc30d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 01/30] fix: poll the dispatch after a queued write that
 blocked the next message head is flushed

With the queue write strategy, a message head is not written while earlier
bytes are still queued, so the dispatch (service future, request channel) is
not polled either. If the flush in the same loop iteration then finished, the
connection task returned without polling it and without any wake-up to come,
and stalled.
---
 src/proto/h1/dispatch.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index f250f55..3b6a48f 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -172,13 +172,19 @@ where
         for _ in 0..16 {
             let _ = self.poll_read(cx)?;
             let write_ready = self.poll_write(cx)?.is_ready();
+            let head_was_blocked = !self.conn.can_write_head();
             let flush_ready = self.poll_flush(cx)?.is_ready();
 
             // If we can write more body and the connection is ready, we should
             // write again. If we return `Ready(Ok(())` here, we will yield
             // without a guaranteed wake-up from the write side of the connection.
             // This would lead to a deadlock if we also don't expect reads.
-            let wants_write_again = self.can_write_again() && (write_ready || flush_ready);
+            //
+            // The same goes for a message head that could not be written only because
+            // earlier bytes were still queued: now that they are flushed, the dispatch
+            // must be polled, or else nothing would ever wake us up for it.
+            let wants_write_again = (self.can_write_again() && (write_ready || flush_ready))
+                || (head_was_blocked && self.can_poll_msg());
 
             // This could happen if reading paused before blocking on IO,
             // such as getting to the end of a framed message, but then
@@ -357,10 +363,7 @@ where
         loop {
             if self.is_closing {
                 return Poll::Ready(Ok(()));
-            } else if self.body_rx.is_none()
-                && self.conn.can_write_head()
-                && self.dispatch.should_poll()
-            {
+            } else if self.can_poll_msg() {
                 if let Some(msg) = ready!(Pin::new(&mut self.dispatch).poll_msg(cx)) {
                     let (head, body) = msg.map_err(crate::Error::new_user_service)?;
 
@@ -466,6 +469,14 @@ where
         !self.is_closing && self.body_rx.is_some() && self.conn.can_write_body()
     }
 
+    /// If the dispatch may have a message, and its head could be written now.
+    fn can_poll_msg(&self) -> bool {
+        !self.is_closing
+            && self.body_rx.is_none()
+            && self.conn.can_write_head()
+            && self.dispatch.should_poll()
+    }
+
     fn is_done(&self) -> bool {
         if self.is_closing {
             return true;
-- 
2.43.0


From ab093370397e060b9f2ce0c8022f0844685e5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 02/30] fix: end a received body as soon as its last frame was
 handed over

After the last data frame of a sized body, or the trailers, the body sender
was kept. If the outgoing message had already finished, the connection then
waited for the next message head while the reader of the finished body waited
for its end, and got an error if the connection closed instead.
---
 src/proto/h1/dispatch.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 3b6a48f..a15ce07 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -256,7 +256,11 @@ where
                                 let chunk = frame.into_data().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_data(chunk) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // Once complete, just drop, so that the body ends now
+                                        // instead of when the next message is read.
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
@@ -270,7 +274,10 @@ where
                                     frame.into_trailers().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_trailers(trailers) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // trailers end the body, see above
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
-- 
2.43.0


From c654e7dc9dda279047f10abb83269645f64d2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 03/30] fix: read the next message already buffered once the
 previous one is flushed

---
 src/proto/h1/dispatch.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index a15ce07..5bec256 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -220,7 +220,11 @@ where
                     if self.conn.has_buffered_write() {
                         let _ = self.poll_flush(cx)?;
                     }
-                    return Poll::Ready(Ok(()));
+                    // If that flush finished the message, the next one may already be in
+                    // the read buffer, and then nothing else would wake us up to read it.
+                    if !self.conn.wants_read_again() {
+                        return Poll::Ready(Ok(()));
+                    }
                 }
             }
         }
-- 
2.43.0


From 1caecd36806cc660c2142d6a5d124d2a034c48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 04/30] fix: append the missing chunked coding only to the
 transfer-encoding header

---
 src/proto/h1/role.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..f99d5ca 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -700,6 +700,8 @@ impl Server {
                 cur_name = Some(n);
                 handle_is_name_written!();
                 is_name_written = false;
+                // only belongs on the transfer-encoding line just finished
+                must_write_chunked = false;
             }
             let name = cur_name.as_ref().expect("current header name");
             match *name {
-- 
2.43.0


From bc103db3f729e335f40f8eff02488d90afc3f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 05/30] fix: drop the pending upgrade when a response refuses
 it

---
 src/proto/h1/conn.rs | 6 ++++++
 src/proto/h1/mod.rs  | 5 +++++
 src/proto/h1/role.rs | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..b88c0f0 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -627,6 +627,12 @@ where
 
         self.enforce_version(&mut head);
 
+        if T::refuses_upgrade(&head.subject, &self.state.method) {
+            // Tell anyone waiting, and don't mistake the end of this connection
+            // for an upgrade later on.
+            self.state.upgrade = None;
+        }
+
         let buf = self.io.headers_buf();
         match super::role::encode_headers::<T>(
             Encode {
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..59abc5f 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -53,6 +53,11 @@ pub(crate) trait Http1Transaction {
         Self::is_server()
     }
 
+    /// If sending this message means that a pending upgrade will not happen.
+    fn refuses_upgrade(_: &Self::Outgoing, _req_method: &Option<Method>) -> bool {
+        false
+    }
+
     fn update_date() {}
 }
 
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index f99d5ca..f39daca 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -505,6 +505,12 @@ impl Http1Transaction for Server {
         true
     }
 
+    fn refuses_upgrade(status: &StatusCode, req_method: &Option<Method>) -> bool {
+        let is_upgrade = *status == StatusCode::SWITCHING_PROTOCOLS
+            || (req_method == &Some(Method::CONNECT) && status.is_success());
+        !is_upgrade
+    }
+
     fn update_date() {
         date::update();
     }
-- 
2.43.0


From 058caee33cc66ae29727e2abcb60afa48a33bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 06/30] fix: refuse chunked trailers that end in the middle of
 what was read as trailers

---
 src/proto/h1/decode.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/decode.rs b/src/proto/h1/decode.rs
index bdfdf79..cac4b1a 100644
--- a/src/proto/h1/decode.rs
+++ b/src/proto/h1/decode.rs
@@ -641,7 +641,16 @@ fn decode_trailers(buf: &mut BytesMut, count: usize) -> Result<HeaderMap, io::Er
     let mut headers = vec![httparse::EMPTY_HEADER; count];
     let res = httparse::parse_headers(buf, &mut headers);
     match res {
-        Ok(httparse::Status::Complete((_, headers))) => {
+        Ok(httparse::Status::Complete((len, headers))) => {
+            // a lone LF ends the section early for httparse, everything after
+            // it would be dropped
+            if len != buf.len() {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid trailer section end",
+                ));
+            }
+
             for header in headers {
                 use std::convert::TryFrom;
                 let name = match HeaderName::try_from(header.name) {
-- 
2.43.0


From 8a4732c8891cca3abc7e63411c68309964a1358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 07/30] fix: let a close option win over keep-alive in any
 Connection field

---
 src/proto/h1/role.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index f39daca..a699f6d 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -240,6 +240,7 @@ impl Http1Transaction for Server {
         let mut is_cl = false;
         let mut is_te = false;
         let mut is_te_chunked = false;
+        let mut conn_close = false;
         let mut wants_upgrade = subject.0 == Method::CONNECT;
 
         let mut header_case_map = if ctx.preserve_header_case {
@@ -309,13 +310,12 @@ impl Http1Transaction for Server {
                 }
                 header::CONNECTION => {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
-                    }
+                    //
+                    // A `close` option wins over any `keep-alive`, wherever
+                    // they are.
+                    conn_close = conn_close || headers::connection_close(&value);
+                    keep_alive =
+                        !conn_close && (keep_alive || headers::connection_keep_alive(&value));
                 }
                 header::EXPECT => {
                     // According to https://datatracker.ietf.org/doc/html/rfc2616#section-14.20
@@ -1109,6 +1109,7 @@ impl Http1Transaction for Client {
             let mut headers = ctx.cached_headers.take().unwrap_or_default();
 
             let mut keep_alive = version == Version::HTTP_11;
+            let mut conn_close = false;
 
             let mut header_case_map = if ctx.preserve_header_case {
                 Some(HeaderCaseMap::default())
@@ -1132,13 +1133,12 @@ impl Http1Transaction for Client {
 
                 if let header::CONNECTION = name {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
-                    }
+                    //
+                    // A `close` option wins over any `keep-alive`, wherever
+                    // they are.
+                    conn_close = conn_close || headers::connection_close(&value);
+                    keep_alive =
+                        !conn_close && (keep_alive || headers::connection_keep_alive(&value));
                 }
 
                 if let Some(header_case_map) = &mut header_case_map {
-- 
2.43.0


From 4d1ab1cf468f2a5f34acbe60aad0d3abf26441a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 08/30] fix: do not replace an application's Connection: close
 by keep-alive for HTTP/1.0 peers

---
 src/proto/h1/conn.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index b88c0f0..df4a42f 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -672,10 +672,12 @@ where
     fn fix_keep_alive(&mut self, head: &mut MessageHead<T::Outgoing>) {
         let outgoing_is_keep_alive = head
             .headers
-            .get(CONNECTION)
-            .map_or(false, headers::connection_keep_alive);
+            .get_all(CONNECTION)
+            .iter()
+            .any(headers::connection_keep_alive);
 
-        if !outgoing_is_keep_alive {
+        // Leave an explicit wish to close the connection as it is.
+        if !outgoing_is_keep_alive && !headers::connection_any_close(&head.headers) {
             match head.version {
                 // If response is version 1.0 and keep-alive is not present in the response,
                 // disable keep-alive so the server closes the connection
@@ -685,7 +687,7 @@ where
                 Version::HTTP_11 => {
                     if self.state.wants_keep_alive() {
                         head.headers
-                            .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
+                            .append(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
                 }
                 _ => (),
-- 
2.43.0


From e7cf6ab71c93d972b82df4407f0d4d052d7a8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 09/30] fix: do not offer keep-alive with a body only the end
 of the connection delimits

---
 src/proto/h1/conn.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index df4a42f..a7d0d1d 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -11,7 +11,7 @@ use std::time::Duration;
 use crate::rt::{Read, Write};
 use bytes::{Buf, Bytes};
 use futures_core::ready;
-use http::header::{HeaderValue, CONNECTION};
+use http::header::{HeaderValue, CONNECTION, CONTENT_LENGTH};
 use http::{HeaderMap, Method, Version};
 use http_body::Frame;
 use httparse::ParserConfig;
@@ -625,6 +625,17 @@ where
             }
         }
 
+        if T::is_server()
+            && self.state.version == Version::HTTP_10
+            && matches!(body, Some(BodyLength::Unknown))
+            && self.state.method != Some(Method::HEAD)
+            && !head.headers.contains_key(CONTENT_LENGTH)
+        {
+            // Without chunked, only closing the connection can end this body,
+            // so don't promise to keep it open.
+            self.state.disable_keep_alive();
+        }
+
         self.enforce_version(&mut head);
 
         if T::refuses_upgrade(&head.subject, &self.state.method) {
-- 
2.43.0


From 73563530c7d24224e319215876c5782d5c413c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 10/30] fix: do not write an automatic error response in front
 of queued body bytes

---
 src/proto/h1/conn.rs |  2 ++
 src/proto/h1/io.rs   | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index a7d0d1d..593429f 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -844,6 +844,8 @@ where
                 // Drop the cached headers so as to not trigger a debug
                 // assert in `write_head`...
                 self.state.cached_headers.take();
+                // The end of the previous response may still be queued.
+                self.io.flatten_queue();
                 self.write_head(msg, None);
                 self.state.error = Some(err);
                 return Ok(());
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..19a8c41 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -141,6 +141,11 @@ where
         &mut buf.bytes
     }
 
+    /// Makes room for a head behind body bytes that are still queued.
+    pub(crate) fn flatten_queue(&mut self) {
+        self.write_buf.flatten_queue();
+    }
+
     pub(super) fn write_buf(&mut self) -> &mut WriteBuf<B> {
         &mut self.write_buf
     }
@@ -590,6 +595,15 @@ where
         }
     }
 
+    fn flatten_queue(&mut self) {
+        while self.queue.has_remaining() {
+            let chunk = self.queue.chunk();
+            let n = chunk.len();
+            self.headers.bytes.extend_from_slice(chunk);
+            self.queue.advance(n);
+        }
+    }
+
     fn headers_mut(&mut self) -> &mut Cursor<Vec<u8>> {
         debug_assert!(!self.queue.has_remaining());
         &mut self.headers
-- 
2.43.0


From dfa00afb86bad3c0cfa1276e145d1c624065f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 11/30] fix: send the body of a request whose version is set to
 HTTP/2

An HTTP/1 client writes such a request as HTTP/1.1, but treated it like an
HTTP/1.0 one when choosing the framing: a body of unknown length was
silently dropped and a Transfer-Encoding set by the caller was removed.
---
 src/proto/h1/role.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index a699f6d..569c714 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1338,8 +1338,9 @@ impl Client {
             return Encoder::length(0);
         };
 
-        // HTTP/1.0 doesn't know about chunked
-        let can_chunked = head.version == Version::HTTP_11;
+        // HTTP/1.0 doesn't know about chunked. (An HTTP/2 version is going to be
+        // sent as HTTP/1.1.)
+        let can_chunked = head.version != Version::HTTP_10;
         let headers = &mut head.headers;
 
         // If the user already set specific headers, we should respect them, regardless
-- 
2.43.0


From 077f12580cff2107e2e99dfccb75ccba4a8cfd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 12/30] fix: do not send an invalid Content-Length next to
 Transfer-Encoding

A Content-Length that does not parse was left on a client request that is
sent chunked, giving the message contradictory framing.
---
 src/proto/h1/role.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 569c714..3122dd6 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1412,6 +1412,7 @@ impl Client {
                     match head.subject.0 {
                         Method::GET | Method::HEAD | Method::CONNECT => Some(Encoder::length(0)),
                         _ => {
+                            should_remove_con_len = true;
                             te.insert(HeaderValue::from_static("chunked"));
                             Some(Encoder::chunked())
                         }
@@ -1444,9 +1445,10 @@ impl Client {
         });
 
         // This is because we need a second mutable borrow to remove
-        // content-length header.
+        // content-length header. An invalid one must not stay next to a
+        // transfer-encoding either.
         if let Some(encoder) = encoder {
-            if should_remove_con_len && existing_con_len.is_some() {
+            if should_remove_con_len {
                 headers.remove(header::CONTENT_LENGTH);
             }
             return encoder;
-- 
2.43.0


From a501399d28c716c8bd360d2f4ad7f558592f7823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:41 +0000
Subject: [PATCH 13/30] fix: do not start the header read timeout while a
 response is being flushed

---
 src/proto/h1/conn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 593429f..9bc8be7 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -418,7 +418,13 @@ where
         };
 
         self.state.reading = reading;
-        self.try_keep_alive(cx);
+        // If the end of a response is still waiting to be flushed, the
+        // connection isn't idle yet: `poll_flush` will move on from here.
+        // Otherwise, the time to read the next head would include the time
+        // it takes to write this response.
+        if !(T::is_server() && self.io.has_buffered_write()) {
+            self.try_keep_alive(cx);
+        }
         ret
     }
 
-- 
2.43.0


From 369feef5dda385ced014afea295d25bb603dc535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 14/30] fix: treat a 204 response to CONNECT as a tunnel on the
 client

---
 src/proto/h1/role.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 3122dd6..a93b633 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1288,6 +1288,8 @@ impl Client {
                 trace!("ignoring informational response: {}", inc.subject.as_u16());
                 return Ok(None);
             }
+            // Any 2xx to a CONNECT switches to a tunnel, even a 204.
+            204 if matches!(*method, Some(Method::CONNECT)) => (),
             204 | 304 => return Ok(Some((DecodedLength::ZERO, false))),
             _ => (),
         }
-- 
2.43.0


From d7aa536797bf1948d71b29c5c8f97e2d3217084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:28 +0000
Subject: [PATCH 15/30] fix: flush what is left of the HTTP message before
 handing over the IO

---
 src/proto/h1/conn.rs     | 4 ++++
 src/proto/h1/dispatch.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 9bc8be7..4a09d63 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -160,6 +160,10 @@ where
         self.io.into_inner()
     }
 
+    pub(crate) fn has_pending_upgrade(&self) -> bool {
+        self.state.upgrade.is_some()
+    }
+
     pub(crate) fn pending_upgrade(&mut self) -> Option<crate::upgrade::Pending> {
         self.state.upgrade.take()
     }
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 5bec256..8370c24 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -150,6 +150,11 @@ where
         ready!(self.poll_loop(cx))?;
 
         if self.is_done() {
+            // If the IO is going to be handed over, everything that was
+            // already buffered as HTTP has to go out first.
+            if !should_shutdown || self.conn.has_pending_upgrade() {
+                ready!(self.poll_flush(cx))?;
+            }
             if let Some(pending) = self.conn.pending_upgrade() {
                 self.conn.take_error()?;
                 return Poll::Ready(Ok(Dispatched::Upgrade(pending)));
-- 
2.43.0


From d16ca41a0f0e49917c8afb60f676b080a09b13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:21 +0000
Subject: [PATCH 16/30] fix: fail an upgrade whose request body was never read
 to its end

---
 src/proto/h1/conn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 4a09d63..a47f05d 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -402,6 +402,7 @@ where
                     }
                     Err(e) => {
                         debug!("incoming body decode error: {}", e);
+                        self.state.upgrade = None;
                         (Reading::Closed, Poll::Ready(Some(Err(e))))
                     }
                 }
@@ -1096,6 +1097,10 @@ impl State {
 
     fn close_read(&mut self) {
         trace!("State::close_read()");
+        if matches!(self.reading, Reading::Continue(..) | Reading::Body(..)) {
+            // The rest of this message would be taken for the upgraded protocol.
+            self.upgrade = None;
+        }
         self.reading = Reading::Closed;
         self.keep_alive.disable();
     }
-- 
2.43.0


From 91836548f62164f570e4c727394feb69c4be4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:23 +0000
Subject: [PATCH 17/30] fix: strip fields named by every Connection field, and
 any TE field, from HTTP/2 messages

---
 src/proto/h2/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..51a4652 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -7,7 +7,7 @@ use std::task::{Context, Poll};
 use bytes::Buf;
 use futures_core::ready;
 use h2::SendStream;
-use http::header::{HeaderName, CONNECTION, TRANSFER_ENCODING, UPGRADE};
+use http::header::{Entry, HeaderName, HeaderValue, CONNECTION, TRANSFER_ENCODING, UPGRADE};
 use http::HeaderMap;
 use pin_project_lite::pin_project;
 
@@ -59,8 +59,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
     #[cfg(feature = "client")]
     if matches!(kind, MessageKind::Request) {
         if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
+            .get_all(http::header::TE)
+            .iter()
+            .any(|te_header| te_header != "trailers")
         {
             warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
             headers.remove(http::header::TE);
@@ -69,21 +70,25 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         warn!("TE headers illegal in HTTP/2 responses");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    if let Entry::Occupied(entry) = headers.entry(CONNECTION) {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
         );
         // A `Connection` header may have a comma-separated list of names of other headers that
-        // are meant for only this specific connection.
+        // are meant for only this specific connection, and it may be repeated.
         //
         // Iterate these names and remove them as headers. Connection-specific headers are
         // forbidden in HTTP2, as that information has been moved into frame types of the h2
         // protocol.
-        if let Ok(header_contents) = header.to_str() {
-            for name in header_contents.split(',') {
-                let name = name.trim();
-                headers.remove(name);
+        let (_, values) = entry.remove_entry_mult();
+        let values: Vec<HeaderValue> = values.collect();
+        for header in values {
+            if let Ok(header_contents) = header.to_str() {
+                for name in header_contents.split(',') {
+                    let name = name.trim();
+                    headers.remove(name);
+                }
             }
         }
     }
-- 
2.43.0


From 224febe6dc700a9340b7f42f8074ce7caa49552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:06 +0000
Subject: [PATCH 18/30] fix: fail only the stream of a CONNECT request with a
 body, not the connection

---
 src/proto/h2/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..0e97544 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -287,7 +287,7 @@ where
                             if content_length.map_or(false, |len| len != 0) {
                                 warn!("h2 connect request with non-zero body not supported");
                                 respond.send_reset(h2::Reason::INTERNAL_ERROR);
-                                return Poll::Ready(Ok(()));
+                                continue;
                             }
                             let (pending, upgrade) = crate::upgrade::pending();
                             debug_assert!(parts.extensions.get::<OnUpgrade>().is_none());
-- 
2.43.0


From 463c7941a1dca72010468783d2dc0e70377d4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:23 +0000
Subject: [PATCH 19/30] fix: close an HTTP/2 server connection on keep-alive
 timeout even if the peer does not read

---
 src/proto/h2/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 0e97544..7572825 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -260,7 +260,19 @@ where
             loop {
                 self.poll_ping(cx);
 
-                match ready!(self.conn.poll_accept(cx)) {
+                let accepted = match self.conn.poll_accept(cx) {
+                    Poll::Ready(accepted) => accepted,
+                    Poll::Pending => {
+                        // A peer that doesn't answer pings may not be reading
+                        // either, so don't wait for the GOAWAY to be flushed.
+                        if let Some((ping, _)) = &self.ping {
+                            ping.ensure_not_timed_out()?;
+                        }
+                        return Poll::Pending;
+                    }
+                };
+
+                match accepted {
                     Some(Ok((req, mut respond))) => {
                         trace!("incoming request");
                         let content_length = headers::content_length_parse_all(req.headers());
-- 
2.43.0


From c67d6e72aeefb67b2baaa14960b5bb8a23a9f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:41 +0000
Subject: [PATCH 20/30] fix: count open streams for HTTP/2 keep-alive after the
 senders are dropped

---
 src/proto/h2/client.rs |  9 ++++++++-
 src/proto/h2/ping.rs   | 19 +++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index eb768ba..24a8b7f 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -3,6 +3,7 @@ use std::{
     future::Future,
     marker::PhantomData,
     pin::Pin,
+    sync::Arc,
     task::{Context, Poll},
     time::Duration,
 };
@@ -175,9 +176,12 @@ where
 
     let ping_config = new_ping_config(config);
 
+    let mut opener = None;
+
     let (conn, ping) = if ping_config.is_enabled() {
         let pp = conn.ping_pong().expect("conn.ping_pong");
-        let (recorder, ponger) = ping::channel(pp, ping_config, timer);
+        let (recorder, mut ponger) = ping::channel(pp, ping_config, timer);
+        opener = Some(ponger.opener());
 
         let conn: Conn<_, B> = Conn::new(ponger, conn);
         (Either::left(conn), recorder)
@@ -194,6 +198,7 @@ where
     });
 
     Ok(ClientTask {
+        _opener: opener,
         ping,
         conn_drop_ref,
         conn_eof,
@@ -427,6 +432,8 @@ where
     B: Body,
     E: Unpin,
 {
+    // Dropped before the recorder it belongs to.
+    _opener: Option<Arc<()>>,
     ping: ping::Recorder,
     conn_drop_ref: ConnDropRef,
     conn_eof: ConnEof,
diff --git a/src/proto/h2/ping.rs b/src/proto/h2/ping.rs
index 198bff4..3fcc222 100644
--- a/src/proto/h2/ping.rs
+++ b/src/proto/h2/ping.rs
@@ -22,7 +22,7 @@
 use std::fmt;
 use std::future::Future;
 use std::pin::Pin;
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, Weak};
 use std::task::{self, Poll};
 use std::time::{Duration, Instant};
 
@@ -89,6 +89,7 @@ pub(super) fn channel(ping_pong: PingPong, config: Config, timer: Time) -> (Reco
             bdp,
             keep_alive,
             shared,
+            opener: None,
         },
     )
 }
@@ -114,6 +115,8 @@ pub(super) struct Ponger {
     bdp: Option<Bdp>,
     keep_alive: Option<KeepAlive>,
     shared: Arc<Mutex<Shared>>,
+    /// Whether the task that opens streams still holds its own recorder.
+    opener: Option<Weak<()>>,
 }
 
 struct Shared {
@@ -323,8 +326,20 @@ impl Ponger {
         Poll::Pending
     }
 
+    /// Tells apart the recorder of the task that opens streams, which may end
+    /// before they do, from the recorders of the streams.
+    ///
+    /// The task has to drop the returned token no later than its recorder.
+    #[cfg(feature = "client")]
+    pub(super) fn opener(&mut self) -> Arc<()> {
+        let token = Arc::new(());
+        self.opener = Some(Arc::downgrade(&token));
+        token
+    }
+
     fn is_idle(&self) -> bool {
-        Arc::strong_count(&self.shared) <= 2
+        let opener = self.opener.as_ref().map_or(1, Weak::strong_count);
+        Arc::strong_count(&self.shared) <= 1 + opener
     }
 }
 
-- 
2.43.0


From 69c34864c78a3595d132b96ce2a4f0e96e047c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:00 +0000
Subject: [PATCH 21/30] fix: treat any 2xx response to CONNECT as a tunnel on
 the HTTP/2 client

---
 src/proto/h2/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 24a8b7f..577f0c0 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -15,7 +15,7 @@ use futures_channel::{mpsc, oneshot};
 use futures_core::{ready, FusedFuture, FusedStream, Stream};
 use h2::client::{Builder, Connection, SendRequest};
 use h2::SendStream;
-use http::{Method, StatusCode};
+use http::Method;
 use pin_project_lite::pin_project;
 
 use super::ping::{Ponger, Recorder};
@@ -631,7 +631,7 @@ where
                 ping.record_non_data();
 
                 let content_length = headers::content_length_parse_all(res.headers());
-                if let (Some(mut send_stream), StatusCode::OK) = (send_stream, res.status()) {
+                if let (Some(mut send_stream), true) = (send_stream, res.status().is_success()) {
                     if content_length.map_or(false, |len| len != 0) {
                         warn!("h2 connect response with non-zero body not supported");
 
-- 
2.43.0


From 7a7143c19b838986750f902a1bf0dc4256d96225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:33 +0000
Subject: [PATCH 22/30] fix: HTTP/2 responses to HEAD and 304s report an empty
 body whatever length they declare

---
 src/proto/h2/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 577f0c0..9e7f2cf 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -15,7 +15,7 @@ use futures_channel::{mpsc, oneshot};
 use futures_core::{ready, FusedFuture, FusedStream, Stream};
 use h2::client::{Builder, Connection, SendRequest};
 use h2::SendStream;
-use http::Method;
+use http::{Method, StatusCode};
 use pin_project_lite::pin_project;
 
 use super::ping::{Ponger, Recorder};
@@ -418,6 +418,7 @@ where
     B: Body,
 {
     is_connect: bool,
+    is_head: bool,
     eos: bool,
     fut: ResponseFuture,
     body_tx: SendStream<SendBuf<B::Data>>,
@@ -574,6 +575,7 @@ where
             send_when: SendWhen {
                 when: ResponseFutMap {
                     fut: f.fut,
+                    is_head: f.is_head,
                     ping: Some(ping),
                     send_stream: Some(send_stream),
                     exec: self.executor.clone(),
@@ -593,6 +595,7 @@ pin_project! {
     {
         #[pin]
         fut: ResponseFuture,
+        is_head: bool,
         ping: Option<Recorder>,
         #[pin]
         send_stream: Option<Option<SendStream<SendBuf<<B as Body>::Data>>>>,
@@ -655,6 +658,10 @@ where
 
                     Poll::Ready(Ok(res))
                 } else {
+                    // These never have a body, whatever length they declare.
+                    let no_body = *this.is_head
+                        || (res.status() == StatusCode::NOT_MODIFIED && res.body().is_end_stream());
+                    let content_length = if no_body { Some(0) } else { content_length };
                     let res = res.map(|stream| {
                         let ping = ping.for_stream(&stream);
                         IncomingBody::h2(stream, content_length.into(), ping)
@@ -721,6 +728,7 @@ where
                     }
 
                     let is_connect = req.method() == Method::CONNECT;
+                    let is_head = req.method() == Method::HEAD;
                     let eos = body.is_end_stream();
 
                     if is_connect
@@ -753,6 +761,7 @@ where
 
                     let f = FutCtx {
                         is_connect,
+                        is_head,
                         eos,
                         fut,
                         body_tx,
-- 
2.43.0


From 780a79387c053c4745872cffbc3c673014b0c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:35 +0000
Subject: [PATCH 23/30] fix: an HTTP/2 body reset with NO_ERROR short of its
 declared length is not complete

---
 src/body/incoming.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..5a975e3 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -245,10 +245,13 @@ impl Body for Incoming {
                             return Poll::Ready(Some(Ok(Frame::data(bytes))));
                         }
                         Some(Err(e)) => {
-                            if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                            if e.reason() == Some(h2::Reason::NO_ERROR)
+                                && len.into_opt().unwrap_or(0) == 0
+                            {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
-                                // to stop, but not fail it:
+                                // to stop, but not fail it (unless part of its declared length
+                                // is still missing):
                                 return Poll::Ready(None);
                             } else {
                                 return Poll::Ready(Some(Err(crate::Error::new_body(e))));
-- 
2.43.0


From 16507e8ba537e27c075f19a9f721f07e6457bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:27 +0000
Subject: [PATCH 24/30] fix: flush aggregated pipelined responses before
 shutting down or waiting for more input

With pipeline_flush, responses were neither flushed while only part of the
next request was buffered nor, if any unread bytes were left, on shutdown.
---
 src/proto/h1/conn.rs |  6 +++++-
 src/proto/h1/io.rs   | 12 +++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index a47f05d..57d0ed3 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -868,7 +868,11 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        ready!(Pin::new(&mut self.io).poll_flush(cx))?;
+        // What else was received is only going to be read now if it is another message.
+        let can_defer = matches!(self.state.reading, Reading::Init | Reading::KeepAlive);
+        if !(can_defer && self.io.is_pipelining()) {
+            ready!(Pin::new(&mut self.io).poll_flush(cx))?;
+        }
         self.try_keep_alive(cx);
         trace!("flushed({}): {:?}", T::LOG, self.state);
         Poll::Ready(Ok(()))
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 19a8c41..817c47b 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -273,10 +273,16 @@ where
         self.read_blocked
     }
 
+    /// Whether flushing can wait until the messages already received were handled.
+    ///
+    /// The start of a message doesn't count: the rest may never arrive if what is
+    /// to be flushed doesn't go out.
+    pub(crate) fn is_pipelining(&self) -> bool {
+        self.flush_pipeline && !self.read_buf.is_empty() && !self.read_blocked
+    }
+
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        if self.flush_pipeline && !self.read_buf.is_empty() {
-            Poll::Ready(Ok(()))
-        } else if self.write_buf.remaining() == 0 {
+        if self.write_buf.remaining() == 0 {
             Pin::new(&mut self.io).poll_flush(cx)
         } else {
             if let WriteStrategy::Flatten = self.write_buf.strategy {
-- 
2.43.0


From 31735c55ad5f793a1ff1a01b2ddd81ffe883ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:54 +0000
Subject: [PATCH 25/30] fix: refresh the cached date when the wall clock is set
 back

---
 src/common/date.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/date.rs b/src/common/date.rs
index d348ff7..1e9ee19 100644
--- a/src/common/date.rs
+++ b/src/common/date.rs
@@ -62,8 +62,11 @@ impl CachedDate {
 
     fn check(&mut self) {
         let now = SystemTime::now();
-        if now > self.next_update {
-            self.update(now);
+        // `next_update` is at most a second ahead of the second that was
+        // rendered, so if it is further away the clock was set back.
+        match self.next_update.duration_since(now) {
+            Ok(left) if left <= Duration::from_secs(1) => (),
+            _ => self.update(now),
         }
     }
 
-- 
2.43.0


From 5b74fb2634199fc28d02cc8ea1f699412410f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:47 +0000
Subject: [PATCH 26/30] fix: replacing a header through the C API forgets its
 other entries

---
 src/ext/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ext/mod.rs b/src/ext/mod.rs
index 0fccb5f..5762ee4 100644
--- a/src/ext/mod.rs
+++ b/src/ext/mod.rs
@@ -223,14 +223,20 @@ impl OriginalHeaderOrder {
     }
 
     pub(crate) fn insert(&mut self, name: HeaderName) {
-        if !self.num_entries.contains_key(&name) {
-            let idx = 0;
-            self.num_entries.insert(name.clone(), 1);
-            self.entry_order.push((name, idx));
+        match self.num_entries.get_mut(&name) {
+            // Replacing an already existing element does not change its
+            // ordering, but it leaves only one value for that name.
+            Some(num) => {
+                if *num > 1 {
+                    *num = 1;
+                    self.entry_order.retain(|(n, idx)| *n != name || *idx == 0);
+                }
+            }
+            None => {
+                self.num_entries.insert(name.clone(), 1);
+                self.entry_order.push((name, 0));
+            }
         }
-        // Replacing an already existing element does not
-        // change ordering, so we only care if its the first
-        // header name encountered
     }
 
     pub(crate) fn append<N>(&mut self, name: N)
-- 
2.43.0


From 331fe966fadba342e2f6123da6a4cf1b5d60bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:36 +0000
Subject: [PATCH 27/30] fix: leave what follows an upgrade response on the wire
 to the upgraded side

---
 src/proto/h1/conn.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 57d0ed3..c5f08c9 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -503,6 +503,14 @@ where
             return Poll::Pending;
         }
 
+        if self.state.upgrade.is_some()
+            && matches!(self.state.writing, Writing::KeepAlive | Writing::Closed)
+        {
+            // The messages are complete, only flushing is left: whatever comes
+            // next, even an EOF, is for whoever takes over the connection.
+            return Poll::Pending;
+        }
+
         let num_read = ready!(self.force_io_read(cx)).map_err(crate::Error::new_io)?;
 
         if num_read == 0 {
-- 
2.43.0


From f3a363679f21644ab3461eee04630a5bed841eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:52 +0000
Subject: [PATCH 28/30] fix: don't end an HTTP/2 tunnel over data queued while
 its end was being noticed

---
 src/proto/h2/upgrade.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 217aa27..a64ff01 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -174,7 +174,9 @@ where
             if !h2_has_capacity {
                 // `size_hint` reads the queued message count without popping,
                 // so an accepted write stays queued until h2 capacity returns.
-                if me.rx.size_hint().0 == 0 && me.close_notify.poll_closed(cx).is_ready() {
+                // (and nothing can be queued any more once the write side is gone,
+                // so that must be checked first).
+                if me.close_notify.poll_closed(cx).is_ready() && me.rx.size_hint().0 == 0 {
                     me.h2_tx
                         .send_data(SendBuf::None, true)
                         .map_err(crate::Error::new_body_write)?;
-- 
2.43.0


From 1848d0886e9ff2e2f939903ea8ac82b5e97e4b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:34 +0000
Subject: [PATCH 29/30] fix: do not lose a request sent while the connection is
 being dropped

---
 src/client/dispatch.rs | 80 ++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/src/client/dispatch.rs b/src/client/dispatch.rs
index 69c9b8c..d47e0ff 100644
--- a/src/client/dispatch.rs
+++ b/src/client/dispatch.rs
@@ -1,3 +1,5 @@
+use std::sync::atomic::{fence, Ordering};
+use std::sync::{Arc, Mutex};
 use std::task::{Context, Poll};
 #[cfg(feature = "http2")]
 use std::{future::Future, pin::Pin};
@@ -109,10 +111,7 @@ impl<T, U> Sender<T, U> {
             return Err(val);
         }
         let (tx, rx) = oneshot::channel();
-        self.inner
-            .send(Envelope(Some((val, Callback::Retry(Some(tx))))))
-            .map(move |_| rx)
-            .map_err(|mut e| (e.0).0.take().expect("envelope not dropped").0)
+        send(&self.inner, val, Callback::Retry(Some(tx))).map(move |_| rx)
     }
 
     #[cfg(feature = "http1")]
@@ -121,10 +120,7 @@ impl<T, U> Sender<T, U> {
             return Err(val);
         }
         let (tx, rx) = oneshot::channel();
-        self.inner
-            .send(Envelope(Some((val, Callback::NoRetry(Some(tx))))))
-            .map(move |_| rx)
-            .map_err(|mut e| (e.0).0.take().expect("envelope not dropped").0)
+        send(&self.inner, val, Callback::NoRetry(Some(tx))).map(move |_| rx)
     }
 
     #[cfg(feature = "http2")]
@@ -148,18 +144,12 @@ impl<T, U> UnboundedSender<T, U> {
 
     pub(crate) fn try_send(&mut self, val: T) -> Result<RetryPromise<T, U>, T> {
         let (tx, rx) = oneshot::channel();
-        self.inner
-            .send(Envelope(Some((val, Callback::Retry(Some(tx))))))
-            .map(move |_| rx)
-            .map_err(|mut e| (e.0).0.take().expect("envelope not dropped").0)
+        send(&self.inner, val, Callback::Retry(Some(tx))).map(move |_| rx)
     }
 
     pub(crate) fn send(&mut self, val: T) -> Result<Promise<U>, T> {
         let (tx, rx) = oneshot::channel();
-        self.inner
-            .send(Envelope(Some((val, Callback::NoRetry(Some(tx))))))
-            .map(move |_| rx)
-            .map_err(|mut e| (e.0).0.take().expect("envelope not dropped").0)
+        send(&self.inner, val, Callback::NoRetry(Some(tx))).map(move |_| rx)
     }
 }
 
@@ -173,6 +163,26 @@ impl<T, U> Clone for UnboundedSender<T, U> {
     }
 }
 
+fn send<T, U>(
+    tx: &mpsc::UnboundedSender<Envelope<T, U>>,
+    val: T,
+    callback: Callback<T, U>,
+) -> Result<(), T> {
+    let contents = Arc::new(Mutex::new(Some((val, callback))));
+    let sent = tx.send(Envelope(contents.clone()));
+
+    // A receiver that is dropped at the same time may miss the envelope, which
+    // then stays in the channel for as long as there is a sender. So if the
+    // channel is closed, look if what was sent is still in there.
+    fence(Ordering::SeqCst);
+    if sent.is_err() || tx.is_closed() {
+        if let Some((val, _)) = Envelope(contents).take() {
+            return Err(val);
+        }
+    }
+    Ok(())
+}
+
 pub(crate) struct Receiver<T, U> {
     inner: mpsc::UnboundedReceiver<Envelope<T, U>>,
     taker: want::Taker,
@@ -180,13 +190,19 @@ pub(crate) struct Receiver<T, U> {
 
 impl<T, U> Receiver<T, U> {
     pub(crate) fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<(T, Callback<T, U>)>> {
-        match self.inner.poll_recv(cx) {
-            Poll::Ready(item) => {
-                Poll::Ready(item.map(|mut env| env.0.take().expect("envelope not dropped")))
-            }
-            Poll::Pending => {
-                self.taker.want();
-                Poll::Pending
+        loop {
+            match self.inner.poll_recv(cx) {
+                Poll::Ready(Some(mut env)) => {
+                    // (or else the sender took it back, see `send`)
+                    if let Some(item) = env.take() {
+                        return Poll::Ready(Some(item));
+                    }
+                }
+                Poll::Ready(None) => return Poll::Ready(None),
+                Poll::Pending => {
+                    self.taker.want();
+                    return Poll::Pending;
+                }
             }
         }
     }
@@ -200,7 +216,7 @@ impl<T, U> Receiver<T, U> {
     #[cfg(feature = "http1")]
     pub(crate) fn try_recv(&mut self) -> Option<(T, Callback<T, U>)> {
         match crate::common::task::now_or_never(self.inner.recv()) {
-            Some(Some(mut env)) => env.0.take(),
+            Some(Some(mut env)) => env.take(),
             _ => None,
         }
     }
@@ -211,14 +227,26 @@ impl<T, U> Drop for Receiver<T, U> {
         // Notify the giver about the closure first, before dropping
         // the mpsc::Receiver.
         self.taker.cancel();
+        // Either what was sent is found when dropping the mpsc::Receiver, or
+        // its sender finds the channel closed.
+        self.inner.close();
+        fence(Ordering::SeqCst);
     }
 }
 
-struct Envelope<T, U>(Option<(T, Callback<T, U>)>);
+type Contents<T, U> = Arc<Mutex<Option<(T, Callback<T, U>)>>>;
+
+struct Envelope<T, U>(Contents<T, U>);
+
+impl<T, U> Envelope<T, U> {
+    fn take(&mut self) -> Option<(T, Callback<T, U>)> {
+        self.0.lock().unwrap().take()
+    }
+}
 
 impl<T, U> Drop for Envelope<T, U> {
     fn drop(&mut self) {
-        if let Some((val, cb)) = self.0.take() {
+        if let Some((val, cb)) = self.take() {
             cb.send(Err(TrySendError {
                 error: crate::Error::new_canceled().with("connection closed"),
                 message: Some(val),
-- 
2.43.0


From 2ef38a66e7a892099060789c9701d86c72ecbeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:21 +0000
Subject: [PATCH 30/30] fix: report a body cut short by EOF as an incomplete
 message

Error::is_incomplete_message() documents that it covers a message body
that was only partially received before the connection reports EOF, but
such errors are of the body kind and were not recognised.
---
 src/error.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 1ccd09b..a3d1120 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -273,7 +273,16 @@ impl Error {
         return false;
 
         #[cfg(all(any(feature = "client", feature = "server"), feature = "http1"))]
-        matches!(self.inner.kind, Kind::IncompleteMessage)
+        {
+            match self.inner.kind {
+                Kind::IncompleteMessage => true,
+                // The body decoder reports an early EOF as its cause.
+                Kind::Body => self
+                    .find_source::<std::io::Error>()
+                    .map_or(false, |e| e.kind() == std::io::ErrorKind::UnexpectedEof),
+                _ => false,
+            }
+        }
     }
 
     /// Returns true if the body write was aborted.
-- 
2.43.0

