From e5213be87ae6a939c247de57444dfabb155303ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 01/16] hook: cfg(fix_rs_sim) re-exports public items for the
 simulation harness

---
 src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b4d4c4f..67ba52d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code, unused_variables)]
+#![allow(unexpected_cfgs)] // cfg(fix_rs_sim), see sim_hooks
 
 include!(concat!(env!("OUT_DIR"), "/mod.rs"));
 
@@ -18,6 +19,21 @@ use network::SocketAcceptor;
 use session::*;
 use tokio;
 
+/// Deterministic-simulation hook, off unless built with `--cfg fix_rs_sim`: lets a
+/// harness that compiles this file as a library reach the crate's public items.
+#[cfg(fix_rs_sim)]
+pub mod sim_hooks {
+    pub use crate::application::*;
+    pub use crate::data_dictionary::*;
+    pub use crate::message::*;
+    pub use crate::network::*;
+    pub use crate::session::*;
+
+    pub fn shipped_main() {
+        crate::main()
+    }
+}
+
 pub(crate) const FILE_PATH: &str = "resources/FIX43.xml";
 pub(crate) const CONFIG_TOML_PATH: &str = "src/FixConfig.toml";
 
-- 
2.43.0


From 53b50e35f714c2c0914fd6e030e11efb5c6ca9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 02/16] fix: end the reader task at end of stream or read error

After the peer closed, read_until returned 0 for ever and the task spun without
reading anything; a read error panicked the task.  A message cut off inside its
CheckSum field was handed on as if it were complete.
---
 src/io/acceptor.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..828969a 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -71,7 +71,11 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
-            read_message(&mut buf_reader, &mut buf).await;
+            match read_message(&mut buf_reader, &mut buf).await {
+                Ok(true) => {}
+                // end of stream or connection failure, whatever is in buf is not a whole message
+                _ => break,
+            }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
@@ -93,9 +97,15 @@ fn start_app_listner_task(
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// returns Ok(false) if the stream ended before a complete message was read
+async fn read_message<R: AsyncBufReadExt + Unpin>(
+    reader: &mut R, buf: &mut Vec<u8>,
+) -> std::io::Result<bool> {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = reader.read_until(SOH as u8, buf).await?;
+        if buf.last() != Some(&(SOH as u8)) {
+            return Ok(false);
+        }
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
@@ -104,7 +114,7 @@ async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<
         if byte_slice.starts_with(&[49, 48, 61]) {
             // b"10="
             // checksum tag found, break
-            break;
+            return Ok(true);
         }
     }
 }
-- 
2.43.0


From 40a19c0e0a4a92d1e2001c346fae045e667f5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 03/16] fix: keep one listener per port and pause between bind
 or accept attempts

The listener was dropped and bound again for every connection, which reset the
connections waiting in its backlog and refused those arriving in between.  A
failing bind or accept was retried in a busy loop that starved the runtime.
---
 src/io/acceptor.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 828969a..2565447 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -7,6 +7,9 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
 
+// delay before trying again after a failure to bind or to accept
+const RETRY_INTERVAL: std::time::Duration = std::time::Duration::from_millis(100);
+
 #[derive(Debug)]
 pub struct IoAcceptor {
     bind_addr: SocketAddr,
@@ -37,17 +40,21 @@ impl IoAcceptor {
         let socket_to_app_send = self.socket_to_app_send.clone();
         let app_to_socket_send = self._app_to_socket_send.clone();
         tokio::spawn(async move {
-            loop {
-                let listener = match TcpListener::bind(bind_addr).await {
+            // bind only once, closing the listener resets all the connections waiting in its backlog
+            let listener = loop {
+                match TcpListener::bind(bind_addr).await {
                     Ok(listener) => {
                         println!("listening on {}", bind_addr);
-                        listener
+                        break listener;
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
+                        tokio::time::sleep(RETRY_INTERVAL).await;
                         continue;
                     }
                 };
+            };
+            loop {
                 let (stream, _) = match listener.accept().await {
                     Ok((stream, remote_addr)) => {
                         println!("accepted connection from {}", remote_addr);
@@ -55,6 +62,7 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in accepting connection: {:?}", e);
+                        tokio::time::sleep(RETRY_INTERVAL).await;
                         continue;
                     }
                 };
-- 
2.43.0


From 565707bff699a561922ea074dac91e5539b535ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 04/16] fix: subscribe a connection's writer before its reader
 starts

A reply sent before the writer had subscribed to the broadcast channel was lost.
---
 src/io/acceptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 2565447..da49a7e 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -67,8 +67,9 @@ impl IoAcceptor {
                     }
                 };
                 let (owned_read, owned_write) = stream.into_split();
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
+                // subscribe before anything is read, so that replies to the first message are not missed
                 start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                start_socket_listener_task(owned_read, socket_to_app_send.clone());
             }
         });
     }
-- 
2.43.0


From 112d63f8511aa4881e1be71e7fd08ba18a1d8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 05/16] fix: ignore messages for sessions that are not
 configured

The thread that receives the messages of every session panicked on the first
message naming an unknown session, after which nothing was delivered any more.
---
 src/network.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..41e7d20 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -250,10 +250,16 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
             println!("received: {}", s);
             let session_id: SessionId = Message::get_reverse_session_id(&s);
 
-            let dd = sessions
+            let dd = match sessions
                 .get_session(&session_id)
                 .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+            {
+                Some(dd) => dd,
+                None => {
+                    println!("no session {} configured, message ignored", session_id);
+                    continue;
+                }
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From 7f82d7c05f88a91b27b34108457fe6b0757e3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 06/16] fix: reject messages with fewer than three fields

parse_header indexed the first three fields unchecked and panicked.
---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..778ca31 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,7 +483,8 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
+    if v.len() < 3
+        || v[0].tag() != BeginString::field()
         || v[1].tag() != BodyLength::field()
         || v[2].tag() != MsgType::field()
     {
-- 
2.43.0


From ea91acacd5a9ceb7a95b7f3ee778cfde2226a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 07/16] fix: check a group's declared count before creating its
 instances

A short message declaring billions of instances made the engine allocate all of
them before finding out that they are not there.
---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 778ca31..9a74ba4 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -426,6 +426,10 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    if declared_count as usize > v.len() {
+        // every instance takes at least one field, so there cannot be that many
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From ba7fde994af810280a63db235887acc9b982714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 08/16] fix: sending to a session without a live connection
 must not panic

The sender panicked if the peer had gone (or never came), taking the receiver
thread with it when the message was sent from Application::from_app.
---
 src/session/session_and_state.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..2aa9325 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -99,9 +99,23 @@ impl Session {
     // }
     pub fn sync_send_to_target(session_id: &SessionId, sessions: &SessionMap, msg: Message) {
         // let synchronous_send = true;
-        let sess_ref = sessions.get_session(session_id).unwrap();
-        let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        let sess_ref = match sessions.get_session(session_id) {
+            Some(sess_ref) => sess_ref,
+            None => {
+                println!("no session {}, message not sent", session_id);
+                return;
+            }
+        };
+        let responder = match sess_ref.responder.as_ref() {
+            Some(responder) => responder.clone(),
+            None => {
+                println!("session {} has no responder, message not sent", session_id);
+                return;
+            }
+        };
+        if responder.send(msg.to_string()).is_err() {
+            println!("session {} is not connected, message not sent", session_id);
+        }
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From 8ab0cc5ca17ded6b564604a1a7bc296875e4045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 09/16] fix: end a connection's writer when its peer is gone

The writer task and the socket stayed around after the peer had disconnected
until something was sent to the port, and a failing write panicked the task.
---
 src/io/acceptor.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index da49a7e..2c7eb57 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -6,6 +6,7 @@ use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::sync::oneshot;
 
 // delay before trying again after a failure to bind or to accept
 const RETRY_INTERVAL: std::time::Duration = std::time::Duration::from_millis(100);
@@ -68,15 +69,20 @@ impl IoAcceptor {
                 };
                 let (owned_read, owned_write) = stream.into_split();
                 // subscribe before anything is read, so that replies to the first message are not missed
-                start_app_listner_task(owned_write, app_to_socket_send.subscribe());
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
+                let (closed_tx, closed_rx) = oneshot::channel::<()>();
+                start_app_listner_task(owned_write, app_to_socket_send.subscribe(), closed_rx);
+                start_socket_listener_task(owned_read, socket_to_app_send.clone(), closed_tx);
             }
         });
     }
 }
 
-fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String>) {
+// closed_tx is dropped when the task ends, which tells the connection's writer to end as well
+fn start_socket_listener_task(
+    read_half: OwnedReadHalf, to_app: TioSender<String>, closed_tx: oneshot::Sender<()>,
+) {
     tokio::spawn(async move {
+        let _closed_tx = closed_tx;
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
@@ -94,14 +100,25 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
 
 fn start_app_listner_task(
     mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<String>,
+    closed_rx: oneshot::Receiver<()>,
 ) {
     tokio::spawn(async move {
         println!("starting internal msg receiv");
-        // if there is message to be sent out to remote socket then read and send
-        while let Ok(msg) = from_app.recv().await {
-            println!("sending {}", &msg);
-            let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
-            println!("sent {}", &msg);
+        let forward = async {
+            // if there is message to be sent out to remote socket then read and send
+            while let Ok(msg) = from_app.recv().await {
+                println!("sending {}", &msg);
+                if let Err(e) = write_half.write_all(msg.as_bytes()).await {
+                    println!("Error in sending: {:?}", e);
+                    break;
+                }
+                println!("sent {}", &msg);
+            }
+        };
+        tokio::select! {
+            biased;
+            _ = forward => {}
+            _ = closed_rx => {}
         }
     });
 }
-- 
2.43.0


From 6d3d4fa0fd725e9f75b21a67b6744a27dfe30265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 10/16] fix: end of stream right after a field separator must
 end the reader too

---
 src/io/acceptor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 2c7eb57..3450bd6 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -129,7 +129,7 @@ async fn read_message<R: AsyncBufReadExt + Unpin>(
 ) -> std::io::Result<bool> {
     loop {
         let bytes_read = reader.read_until(SOH as u8, buf).await?;
-        if buf.last() != Some(&(SOH as u8)) {
+        if bytes_read == 0 || buf.last() != Some(&(SOH as u8)) {
             return Ok(false);
         }
         // println!("bytes received: {:?}", &buf);
-- 
2.43.0


From fee3057878aea783d067ac0e28c1cc2f027b2819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 11/16] fix: drop messages whose BodyLength or CheckSum does
 not match

Damaged or spliced messages were handed to the application, and could
be taken for a message of another session.
---
 src/io/acceptor.rs |  7 ++++++-
 src/message.rs     | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 3450bd6..d6dad71 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -1,5 +1,5 @@
 use crate::io::*;
-use crate::message::SOH;
+use crate::message::{Message, SOH};
 use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
@@ -91,6 +91,11 @@ fn start_socket_listener_task(
                 // end of stream or connection failure, whatever is in buf is not a whole message
                 _ => break,
             }
+            if !Message::is_intact(&buf) {
+                println!("damaged message ignored");
+                buf.clear();
+                continue;
+            }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
diff --git a/src/message.rs b/src/message.rs
index 9a74ba4..94639bb 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -367,6 +367,39 @@ impl Message {
             .unwrap()
     }
 
+    /// Whether the bytes are one whole message: BodyLength and CheckSum are in place and agree
+    /// with the rest of it.
+    pub fn is_intact(raw: &[u8]) -> bool {
+        let soh = SOH as u8;
+        let mut fields = raw.split_inclusive(|b| *b == soh);
+        let (begin_string, body_len) = match (fields.next(), fields.next()) {
+            (Some(begin_string), Some(body_len)) => (begin_string, body_len),
+            _ => return false,
+        };
+        // CheckSum is always three digits
+        let checksum_start = match raw.len().checked_sub(b"10=000|".len()) {
+            Some(start) if start > 0 && raw[start - 1] == soh => start,
+            _ => return false,
+        };
+        let body_start = begin_string.len() + body_len.len();
+        if !begin_string.starts_with(b"8=")
+            || !body_len.starts_with(b"9=")
+            || !raw[checksum_start..].starts_with(b"10=")
+            || body_start > checksum_start
+        {
+            return false;
+        }
+        let number = |field: &[u8]| match field.strip_suffix(&[soh]) {
+            Some(digits) if digits.iter().all(u8::is_ascii_digit) => {
+                std::str::from_utf8(digits).ok().and_then(|d| d.parse::<usize>().ok())
+            }
+            _ => None,
+        };
+        let sum = raw[..checksum_start].iter().map(|b| *b as usize).sum::<usize>();
+        number(&body_len[2..]) == Some(checksum_start - body_start)
+            && number(&raw[checksum_start + 3..]) == Some(sum % 256)
+    }
+
     pub fn get_reverse_session_id(s: &str) -> SessionId {
         // sender values from message is put into target & vice-versa
         SessionIdBuilder::default()
-- 
2.43.0


From 252e96a483eec9541d34852f7f0407647abdfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 12/16] fix: send a session's messages only to connections it
 has identified itself on

All connections of a port received the messages of all of the port's sessions.
---
 src/io/acceptor.rs               | 42 ++++++++++++++++++++++----------
 src/io/mod.rs                    | 10 ++++++++
 src/network.rs                   |  9 ++++---
 src/session/session_and_state.rs |  6 ++---
 4 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d6dad71..8132216 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -14,19 +14,19 @@ const RETRY_INTERVAL: std::time::Duration = std::time::Duration::from_millis(100
 #[derive(Debug)]
 pub struct IoAcceptor {
     bind_addr: SocketAddr,
-    socket_to_app_send: TioSender<String>, // for sending message to application
+    socket_to_app_send: TioSender<FromSocket>, // for sending message to application
 
-    _app_to_socket_send: TioBroadcastSender<String>, // used by acceptor to recv data from app
-                                                     // app_to_socket_send: TioSender<String>,           // used by app code to send data to this
+    _app_to_socket_send: TioBroadcastSender<ToSocket>, // used by acceptor to recv data from app
+                                                       // app_to_socket_send: TioSender<String>,           // used by app code to send data to this
 }
 
 impl IoAcceptor {
     pub fn create(
-        bind_addr: SocketAddr, to_send: TioSender<String>,
-    ) -> (Self, TioBroadcastSender<String>) {
+        bind_addr: SocketAddr, to_send: TioSender<FromSocket>,
+    ) -> (Self, TioBroadcastSender<ToSocket>) {
         let self_bind_addr = bind_addr.clone();
         // dropping the receiving end
-        let (tx, _) = broadcast::channel::<String>(32);
+        let (tx, _) = broadcast::channel::<ToSocket>(32);
         let acceptor = IoAcceptor {
             bind_addr: bind_addr,
             socket_to_app_send: to_send,
@@ -70,8 +70,19 @@ impl IoAcceptor {
                 let (owned_read, owned_write) = stream.into_split();
                 // subscribe before anything is read, so that replies to the first message are not missed
                 let (closed_tx, closed_rx) = oneshot::channel::<()>();
-                start_app_listner_task(owned_write, app_to_socket_send.subscribe(), closed_rx);
-                start_socket_listener_task(owned_read, socket_to_app_send.clone(), closed_tx);
+                let conn_sessions = ConnectionSessions::default();
+                start_app_listner_task(
+                    owned_write,
+                    app_to_socket_send.subscribe(),
+                    conn_sessions.clone(),
+                    closed_rx,
+                );
+                start_socket_listener_task(
+                    owned_read,
+                    socket_to_app_send.clone(),
+                    conn_sessions,
+                    closed_tx,
+                );
             }
         });
     }
@@ -79,7 +90,8 @@ impl IoAcceptor {
 
 // closed_tx is dropped when the task ends, which tells the connection's writer to end as well
 fn start_socket_listener_task(
-    read_half: OwnedReadHalf, to_app: TioSender<String>, closed_tx: oneshot::Sender<()>,
+    read_half: OwnedReadHalf, to_app: TioSender<FromSocket>, conn_sessions: ConnectionSessions,
+    closed_tx: oneshot::Sender<()>,
 ) {
     tokio::spawn(async move {
         let _closed_tx = closed_tx;
@@ -97,21 +109,25 @@ fn start_socket_listener_task(
                 continue;
             }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
-            to_app.send(raw_msg).await.unwrap();
+            to_app.send((raw_msg, conn_sessions.clone())).await.unwrap();
             buf.clear();
         }
     });
 }
 
 fn start_app_listner_task(
-    mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<String>,
-    closed_rx: oneshot::Receiver<()>,
+    mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<ToSocket>,
+    conn_sessions: ConnectionSessions, closed_rx: oneshot::Receiver<()>,
 ) {
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         let forward = async {
             // if there is message to be sent out to remote socket then read and send
-            while let Ok(msg) = from_app.recv().await {
+            while let Ok((session_id, msg)) = from_app.recv().await {
+                // the port is shared, send only what is for this connection's own sessions
+                if !conn_sessions.lock().unwrap().contains(&session_id) {
+                    continue;
+                }
                 println!("sending {}", &msg);
                 if let Err(e) = write_half.write_all(msg.as_bytes()).await {
                     println!("Error in sending: {:?}", e);
diff --git a/src/io/mod.rs b/src/io/mod.rs
index c5a3c56..4a25691 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -4,3 +4,13 @@ pub(crate) mod acceptor;
 
 pub type TioBroadcastSender<T> = broadcast::Sender<T>;
 pub type TioBroadcastReceiver<T> = broadcast::Receiver<T>;
+
+// sessions which have identified themselves on a connection with a valid message
+pub type ConnectionSessions =
+    std::sync::Arc<std::sync::Mutex<std::collections::HashSet<crate::session::SessionId>>>;
+
+// raw message with the sessions of the connection it was received from
+pub type FromSocket = (String, ConnectionSessions);
+
+// message with the session it is sent to
+pub type ToSocket = (crate::session::SessionId, String);
diff --git a/src/network.rs b/src/network.rs
index 41e7d20..099a9d3 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -166,7 +166,7 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
     }
 
     fn set_session_responder(
-        &mut self, session_id: &SessionId, msg_sender: TioBroadcastSender<String>,
+        &mut self, session_id: &SessionId, msg_sender: TioBroadcastSender<ToSocket>,
     ) {
         self.session_map().entry(session_id).and_modify(|session| {
             session.set_responder(Some(msg_sender));
@@ -190,7 +190,7 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
                 .accept_session(session_id.clone(), session.clone());
         }
 
-        let (socket_to_app_tx, socket_to_app_rx) = tio_channel::<String>(64);
+        let (socket_to_app_tx, socket_to_app_rx) = tio_channel::<FromSocket>(64);
         start_receiver_task(socket_to_app_rx, Arc::clone(self.app()), self.session_map().clone());
         for (s_addr, s_desc) in socket_to_descriptor.iter() {
             let (io_acceptor, app_to_socket_tx) =
@@ -243,10 +243,10 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
 // }
 
 fn start_receiver_task<A: Application + Send + Sync + 'static>(
-    mut rx: TioReceiver<String>, app: Arc<A>, sessions: SessionMap,
+    mut rx: TioReceiver<FromSocket>, app: Arc<A>, sessions: SessionMap,
 ) {
     std::thread::spawn(move || {
-        while let Some(s) = rx.blocking_recv() {
+        while let Some((s, conn_sessions)) = rx.blocking_recv() {
             println!("received: {}", s);
             let session_id: SessionId = Message::get_reverse_session_id(&s);
 
@@ -262,6 +262,7 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
             };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
+                conn_sessions.lock().unwrap().insert(session_id.clone());
                 if let Ok(_) = Session::verify(&message, &sessions) {
                     app.from_app(&session_id, &sessions, message);
                 } else {
diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 2aa9325..295873f 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -1,6 +1,6 @@
 use crate::data_dictionary::DataDictionary;
 use crate::fields::MaxMessageSize;
-use crate::io::TioBroadcastSender;
+use crate::io::{TioBroadcastSender, ToSocket};
 use crate::message::*;
 use crate::network::SessionMap;
 use crate::session::*;
@@ -35,7 +35,7 @@ pub struct Session {
     state: SessionState,
     // session_map: Option<Arc<Mutex<HashMap<se>>>>,
     #[getset(set = "pub")]
-    responder: Option<TioBroadcastSender<String>>,
+    responder: Option<TioBroadcastSender<ToSocket>>,
     #[getset(get = "pub")]
     data_dictionary: Arc<DataDictionary>,
 }
@@ -113,7 +113,7 @@ impl Session {
                 return;
             }
         };
-        if responder.send(msg.to_string()).is_err() {
+        if responder.send((session_id.clone(), msg.to_string())).is_err() {
             println!("session {} is not connected, message not sent", session_id);
         }
         // if !synchronous_send {
-- 
2.43.0


From 06d2b9c886c1f00983fd2470369459cc365526d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:14 +0000
Subject: [PATCH 13/16] fix: keep CheckSum last and a group's delimiter first
 when writing a message

A trailer with a signature was written in hash order, possibly with CheckSum before
other fields, and group instances built by an application started with any of their
fields. Setting a group again appended to the instances of the first call.
---
 src/message.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 94639bb..9585b90 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -116,9 +116,12 @@ impl FieldMap {
         self.set_field(grp_field);
         let group =
             self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        // any instances of an earlier call are replaced
+        group.fields.clear();
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            // each instance starts with the delimiter
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         group
     }
@@ -169,11 +172,15 @@ impl<'a> FieldMapIter<'a> {
         let mut temp_vec: Vec<&StringField> = field_map.fields.values().collect();
         if !field_map.field_order.is_empty() {
             temp_vec.sort_by_cached_key(|&field| {
+                if field.tag() == CheckSum::field() {
+                    // always the last field
+                    return usize::MAX;
+                }
                 field_map
                     .field_order
                     .iter()
                     .position(|needle| *needle == field.tag())
-                    .map_or(usize::MAX, |pos| pos)
+                    .map_or(usize::MAX - 1, |pos| pos)
             })
         }
         for str_field in temp_vec {
@@ -258,6 +265,7 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
+            trailer: FieldMap::with_field_order(&[93, 89, 10]),
             ..Default::default()
         }
     }
-- 
2.43.0


From 552eef270c454bf58915806a05cbb15b2abe26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:03 +0000
Subject: [PATCH 14/16] fix: evaluate session windows on the local wall clock

Windows that cross midnight were always closed, weekly windows that end on their
starting day were wrong, instants near a clock change could panic, and so did creating
a schedule without start and end time.
---
 src/session/session_schedule.rs | 58 ++++++++++++---------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..d8309ec 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -59,9 +59,9 @@ impl SessionSchedule {
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
         SessionSchedule::new(
-            start_time.unwrap(),
+            start_time.unwrap_or_default(),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or_default(),
             end_day,
             time_zone,
             is_non_stop,
@@ -74,47 +74,22 @@ impl SessionSchedule {
         }
 
         let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
-        // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
+        // compare local wall clock values only, a local date and time may not exist
+        // or exist twice when the clocks change
+        let now_time = now_datetime.time();
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
-            // now should be between today's session start and end datetimes
-            return today_start_datetime <= now_datetime && now_datetime <= today_end_datetime;
+            return is_between(now_time, self.start_time, self.end_time);
         }
 
-        // if weekdays are given, calculate the weekly start and end datetime
-        let mut weekly_start_date = today_start_datetime.date();
-        let mut weekly_end_date = today_end_datetime.date();
+        // if weekdays are given, compare the position within the week
         let session_start_weekday = self.start_day.unwrap();
         let session_end_weekday = self.end_day.unwrap();
-        // using only the date, start going back until you find the date which has
-        // same weekday as self.start_day
-        while weekly_start_date.weekday() != session_start_weekday {
-            // go back one date prior
-            weekly_start_date = weekly_start_date.pred();
-            if weekly_start_date.weekday() == session_end_weekday {
-                // means that today's date if already out of sesssion window
-                // because going back end day is encountered
-                return false;
-            }
-        }
-        // weekly start_date is on correct weekday for sesssion
-        // update the date with time of self.start_time
-        let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
-
-        while weekly_end_date.weekday() != session_end_weekday {
-            // go forward one day
-            weekly_end_date = weekly_end_date.succ();
-            if weekly_end_date.weekday() == session_start_weekday {
-                // means that today's date if already out of sesssion window
-                // because going forward start day is encountered
-                return false;
-            }
-        }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
-        weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
+        is_between(
+            (now_datetime.weekday().num_days_from_monday(), now_time),
+            (session_start_weekday.num_days_from_monday(), self.start_time),
+            (session_end_weekday.num_days_from_monday(), self.end_time),
+        )
     }
 
     // this is for testing purposes
@@ -155,6 +130,15 @@ impl SessionSchedule {
     }
 }
 
+// both ends are included, the window wraps around (the day or the week) if it ends before it starts
+fn is_between<T: PartialOrd>(now: T, start: T, end: T) -> bool {
+    if start <= end {
+        start <= now && now <= end
+    } else {
+        start <= now || now <= end
+    }
+}
+
 pub fn session_time(time_zone: chrono_tz::Tz) -> bool {
     // create a current datetime = Utc::now()
     // extract the time from above
-- 
2.43.0


From 66e7b6af3768d378b32d294ecd6ee068870866ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 15/16] fix: reject messages that repeat a tag or misplace a
 nested group

A repeated tag silently replaced the first one, a repeated group corrupted the first
one, and the position of nested groups within an instance was not checked.
---
 src/message.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 9585b90..03c0aac 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -460,6 +460,9 @@ fn parse_group(
     let rg = dd
         .get_msg_group(msg_type, fld.tag())
         .ok_or_else(SessionRejectError::tag_not_defined_for_msg)?;
+    if fmap.fields.contains_key(&fld.tag()) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
     let rg_dd = rg.data_dictionary();
     let field_order = rg_dd.get_ordered_fields();
     let group_count_tag = fld.tag();
@@ -496,8 +499,14 @@ fn parse_group(
                 // delimiter not found but other tag is encountered
                 return Err(SessionRejectError::required_tag_missing_err());
             }
+            // verify the order of fields
+            let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
+            if offset <= previous_offset {
+                return Err(SessionRejectError::repeating_grp_out_of_order());
+            }
             let group_instance = &mut group[actual_count as usize];
             parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;
+            previous_offset = offset;
         } else if rg_dd.is_msg_field(msg_type, next_field.tag()) {
             if actual_count < 0 {
                 // means first field not found i.e. delimiter
@@ -505,8 +514,8 @@ fn parse_group(
             }
             // verify the order of fields
             let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
-            if offset < previous_offset {
-                // means the field is out of order
+            if offset <= previous_offset {
+                // means the field is out of order, or repeated
                 return Err(SessionRejectError::repeating_grp_out_of_order());
             }
             let group_instance = &mut group[actual_count as usize];
@@ -543,7 +552,7 @@ fn parse_header(
         } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
-            header.set_field(fld);
+            set_field_once(header, fld)?;
         }
     }
     Ok(())
@@ -567,12 +576,20 @@ fn parse_body(
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
-            msg.set_field(fld);
+            set_field_once(&mut msg.body, fld)?;
         }
     }
     Ok(())
 }
 
+fn set_field_once(fmap: &mut FieldMap, fld: StringField) -> SessResult<()> {
+    if fmap.fields.contains_key(&fld.tag()) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
+    fmap.set_field(fld);
+    Ok(())
+}
+
 fn parse_trailer(
     v: &mut VecDeque<StringField>, trailer: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
@@ -580,7 +597,7 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
-        trailer.set_field(fld);
+        set_field_once(trailer, fld)?;
     }
     Ok(())
 }
-- 
2.43.0


From 3c48def5d3bd0fba3ff52af591bc014912ee24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 16/16] fix: reject tags and group counts that carry a sign

---
 src/message.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 03c0aac..5b5acd3 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,8 +345,8 @@ impl Message {
         for field in s.split_terminator(SOH) {
             let (tag, value) = match field.split_once('=') {
                 Some((t, v)) => {
-                    let parse_result = t.parse::<u32>();
-                    if parse_result.is_err() {
+                    let parse_result = parse_number(t);
+                    if parse_result.is_none() {
                         return Err(SessionRejectError::invalid_tag_err());
                     }
                     if v.is_empty() {
@@ -445,6 +445,15 @@ fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
     ""
 }
 
+/// A tag or a count, which are digits alone: `parse` by itself would let a sign through.
+fn parse_number(s: &str) -> Option<u32> {
+    if s.bytes().all(|b| b.is_ascii_digit()) {
+        s.parse().ok()
+    } else {
+        None
+    }
+}
+
 fn from_vec(mut v: VecDeque<StringField>, dd: &DataDictionary) -> SessResult<Message> {
     let mut message = Message::new();
     parse_header(&mut v, message.header_mut(), dd)?;
@@ -466,9 +475,9 @@ fn parse_group(
     let rg_dd = rg.data_dictionary();
     let field_order = rg_dd.get_ordered_fields();
     let group_count_tag = fld.tag();
-    let declared_count = match fld.value().parse::<u32>() {
-        Ok(c) => c,
-        Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
+    let declared_count = match parse_number(fld.value()) {
+        Some(c) => c,
+        None => return Err(SessionRejectError::incorrect_data_format_err()),
     };
     if declared_count as usize > v.len() {
         // every instance takes at least one field, so there cannot be that many
-- 
2.43.0

