From 762b1a7196eb6b7dcdadf17ab21d8b705a9cda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 01/23] fix: answer a handler's error message with response
 code Error

HandlerError::MessageError was sent as ResponseCode::Ok, so the caller saw a success.
---
 src/handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..2983a9d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,7 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => Ok((ResponseCode::Error, message.try_into()?)),
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From 51a17c872fa7617c22573943bdd6283b881776cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 02/23] fix: an empty chunk at the start of a continuation
 frame only ends the previous arg

It was taken for an additional empty arg, which shifted all following args
whenever an arg ended exactly at the end of a frame.
---
 src/defragmentation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..59385f1 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -229,8 +229,10 @@ impl ArgsDefragmenter {
                     self.args.push(first_arg);
                 }
             },
-            // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
-            None => self.args.push(BytesMut::new()),
+            // empty arg1 of the first frame
+            None if self.args.is_empty() => self.args.push(BytesMut::new()),
+            // according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame
+            None => (),
         }
     }
 
-- 
2.43.0


From 30655f3c222882123e97b9ca0ecc4a80826c0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 03/23] fix: fragment args correctly when an arg ends right
 before the end of a frame

With less than two bytes left for the length of the next arg, that arg was
either started in the next frame without marking the end of the previous one
(so the receiver merged the two), or, if empty, written over the frame limit.
---
 src/fragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..5881a73 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -205,7 +205,10 @@ impl ArgsFragmenter {
             if status == Incomplete {
                 self.args.push_front(arg);
                 break;
-            } else if status == CompleteAtTheEnd {
+            } else if status == CompleteAtTheEnd
+                || (payload_limit < ARG_LEN_LEN as i32 && !self.is_empty())
+            {
+                // no space left to start next arg in this frame
                 self.args.push_front(Bytes::new());
                 break;
             }
-- 
2.43.0


From c67c3bc7d2ccba284381eb7b1f0f51c85fc38133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 04/23] fix: a message whose last fragments never arrive is an
 error

The args received so far were returned as if the message was complete.
---
 src/defragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 59385f1..d281035 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -166,7 +166,10 @@ async fn read_continuation(
     args_defragmenter: &mut ArgsDefragmenter,
 ) -> TResult<()> {
     debug!("Reading continuation");
-    while let Some(frame_id) = frame_input.recv().await {
+    loop {
+        let frame_id = frame_input.recv().await.ok_or_else(|| {
+            TChannelError::Error("Connection closed before the last fragment".to_string())
+        })?;
         let mut frame = frame_id.frame;
         match frame.frame_type() {
             Type::CallResponseContinue | Type::CallRequestContinue => {
-- 
2.43.0


From b9d68f3dc0eb4c25be8ad97d1fcdd43118bed300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 05/23] fix: reject frames with an unsupported checksum instead
 of panicking

---
 src/defragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index d281035..192c2bb 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -202,7 +202,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        other => Err(CodecError::Error(format!(
+            "Unsupported checksum type {:?}",
+            other
+        ))),
     }
 }
 
-- 
2.43.0


From b584823283d3ba392639efbeafd55e57e1734da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 06/23] fix: truncated frame payloads are decoding errors, not
 panics

Reading past the end of a payload sent by the peer panicked in the
connection task of the server, or in the caller of send.
---
 src/frames/payloads.rs | 76 +++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..7b7c8b8 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -102,10 +102,10 @@ impl Codec for Tracing {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Tracing::new(
-            src.get_u64(),
-            src.get_u64(),
-            src.get_u64(),
-            decode_bitflag(src.get_u8(), TraceFlags::from_bits)?,
+            get_u64(src)?,
+            get_u64(src)?,
+            get_u64(src)?,
+            decode_bitflag(get_u8(src)?, TraceFlags::from_bits)?,
         ))
     }
 }
@@ -132,7 +132,7 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Init::new(src.get_u16(), decode_headers(src)?))
+        Ok(Init::new(get_u16(src)?, decode_headers(src)?))
     }
 }
 
@@ -191,7 +191,7 @@ impl Codec for CallWithFieldsEncoded {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallWithFieldsEncoded::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
             CallArgs::decode(src)?,
         ))
@@ -236,7 +236,7 @@ impl Codec for CallRequestFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequestFields::new(
-            src.get_u32(),
+            get_u32(src)?,
             Tracing::decode(src)?,
             decode_small_string(src)?,
             decode_small_headers(src)?,
@@ -278,7 +278,7 @@ impl Codec for CallRequest {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequest::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -322,7 +322,7 @@ impl Codec for CallResponseFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponseFields::new(
-            decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
+            decode_bitflag(get_u8(src)?, ResponseCode::from_u8)?,
             Tracing::decode(src)?,
             decode_small_headers(src)?,
         ))
@@ -363,7 +363,7 @@ impl Codec for CallResponse {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponse::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallResponseFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -404,7 +404,7 @@ impl Codec for CallContinue {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallContinue::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallArgs::decode(src)?,
         ))
     }
@@ -432,7 +432,7 @@ impl Codec for Cancel {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Cancel::new(
-            src.get_u32(),
+            get_u32(src)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -457,7 +457,7 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
+        Ok(Claim::new(get_u32(src)?, Tracing::decode(src)?))
     }
 }
 
@@ -482,7 +482,7 @@ impl Codec for ErrorMsg {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(ErrorMsg::new(
-            decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
+            decode_bitflag(get_u8(src)?, ErrorCode::from_u8)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -512,16 +512,16 @@ fn encode_header_fields<T: TryFrom<usize>>(
 }
 
 fn decode_headers(src: &mut Bytes) -> CodecResult<HashMap<String, String>> {
-    decode_headers_field(src, &Bytes::get_u16, &decode_string)
+    decode_headers_field(src, &get_u16, &decode_string)
 }
 
 fn decode_small_headers(src: &mut Bytes) -> CodecResult<HashMap<String, String>> {
-    decode_headers_field(src, &Bytes::get_u8, &decode_small_string)
+    decode_headers_field(src, &get_u8, &decode_small_string)
 }
 
 fn decode_headers_field<T: TryInto<usize>>(
     src: &mut Bytes,
-    decode_len_fn: &dyn Fn(&mut Bytes) -> T,
+    decode_len_fn: &dyn Fn(&mut Bytes) -> CodecResult<T>,
     decode_string_fn: &dyn Fn(&mut Bytes) -> CodecResult<String>,
 ) -> CodecResult<HashMap<String, String>> {
     let len = decode_len(src, decode_len_fn)?;
@@ -547,10 +547,10 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
-    let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
+    let checksum_type = decode_bitflag(get_u8(src)?, ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => Ok((checksum, Some(get_u32(src)?))),
     }
 }
 
@@ -627,18 +627,19 @@ fn encode_string_field<T: TryFrom<usize>, STR: AsRef<str>>(
 }
 
 fn decode_string(src: &mut Bytes) -> CodecResult<String> {
-    decode_string_field(src, &Bytes::get_u16)
+    decode_string_field(src, &get_u16)
 }
 fn decode_small_string(src: &mut Bytes) -> CodecResult<String> {
-    decode_string_field(src, &Bytes::get_u8)
+    decode_string_field(src, &get_u8)
 }
 
 fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
-    get_len: &dyn Fn(&mut Bytes) -> T,
+    get_len: &dyn Fn(&mut Bytes) -> CodecResult<T>,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    let len = get_len(src)?.into();
+    check_remaining(src, len)?;
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -658,9 +659,32 @@ fn encode_len<T: TryFrom<usize>>(
 
 fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
-    decode_len_fn: &dyn Fn(&mut Bytes) -> T,
+    decode_len_fn: &dyn Fn(&mut Bytes) -> CodecResult<T>,
 ) -> CodecResult<usize> {
-    decode_len_fn(src)
+    decode_len_fn(src)?
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
 }
+
+fn get_u8(src: &mut Bytes) -> CodecResult<u8> {
+    check_remaining(src, 1).map(|_| src.get_u8())
+}
+
+fn get_u16(src: &mut Bytes) -> CodecResult<u16> {
+    check_remaining(src, 2).map(|_| src.get_u16())
+}
+
+fn get_u32(src: &mut Bytes) -> CodecResult<u32> {
+    check_remaining(src, 4).map(|_| src.get_u32())
+}
+
+fn get_u64(src: &mut Bytes) -> CodecResult<u64> {
+    check_remaining(src, 8).map(|_| src.get_u64())
+}
+
+fn check_remaining(src: &Bytes, len: usize) -> CodecResult<()> {
+    if src.remaining() < len {
+        return Err(CodecError::Error("Frame payload too short".to_owned()));
+    }
+    Ok(())
+}
-- 
2.43.0


From 95ea92a3312357c2a9d0f50267518c8214d8dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 07/23] fix: a duplicated message id does not replace the
 outstanding call

The sender of the outstanding call was replaced before the duplicate was reported.
---
 src/connection/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..47931fc 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -75,10 +75,11 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
-        if channels.insert(id, sender).is_some() {
+        if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
         }
+        channels.insert(id, sender);
         Ok(())
     }
 
-- 
2.43.0


From f94dbd041d360b8925da9514d4b0b44ca59cbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 08/23] fix: end outstanding calls of a closed connection and
 stop using it

Calls outstanding on a connection closed by the peer waited forever, and so did
all later calls, because the connection stayed in the pool.
---
 src/connection/mod.rs  | 34 +++++++++++++++++++++++++++++-----
 src/connection/pool.rs |  5 ++---
 src/subchannel.rs      |  9 +++++++--
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 47931fc..f4c26b8 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,7 +7,7 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
@@ -51,6 +51,8 @@ pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
     buffer_size: usize,
+    #[new(default)]
+    closed: AtomicBool,
 }
 
 /// Dispatches frames to channels according to their IDs.
@@ -75,6 +77,9 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection closed".to_string()));
+        }
         if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -83,6 +88,17 @@ impl FramesDispatcher {
         Ok(())
     }
 
+    /// Ends all pending messages. No more frames will be dispatched.
+    pub async fn close(&self) {
+        let mut channels = self.senders.write().await;
+        self.closed.store(true, Ordering::Release);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::Acquire)
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -132,8 +148,8 @@ impl Connection {
         let framed_write = FramedWrite::new(write, TFrameIdCodec {});
         let (sender, receiver) = mpsc::channel::<TFrameId>(buffer_size);
         let connection = Connection::new(sender, buffer_size);
-        FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
-        FrameSender::spawn(framed_write, receiver, buffer_size);
+        let frame_sender = FrameSender::spawn(framed_write, receiver, buffer_size);
+        FrameReceiver::spawn(framed_read, connection.pending_ids.clone(), frame_sender);
         Ok(connection)
     }
 
@@ -157,6 +173,11 @@ impl Connection {
         Ok((receiver, frame_output))
     }
 
+    /// Checks if connection got closed, so no response can be received.
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed()
+    }
+
     fn next_message_id(&self) -> u32 {
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
@@ -216,13 +237,15 @@ impl FrameReceiver {
     pub fn spawn(
         framed_read: FramedRead<OwnedReadHalf, TFrameIdCodec>,
         frame_senders: Arc<FramesDispatcher>,
+        frame_sender: JoinHandle<()>,
     ) -> JoinHandle<()> {
         let frame_receiver = FrameReceiver { frame_senders };
         tokio::spawn(async move {
             frame_receiver
                 .run(framed_read)
                 .then(|_| async { debug!("FrameReceiver stopped") })
-                .await
+                .await;
+            frame_sender.abort(); // nothing can be received in response
         })
     }
 
@@ -232,7 +255,8 @@ impl FrameReceiver {
             .filter_map(Self::print_if_err_and_skip)
             .map(|frame| self.frame_senders.dispatch_following(frame))
             .for_each(Self::print_if_err)
-            .await
+            .await;
+        self.frame_senders.close().await;
     }
 
     fn print_if_err_and_skip(
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..08798fb 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -102,9 +102,8 @@ impl bb8::ManageConnection for ConnectionManager {
         ping(conn).await
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        conn.is_closed()
     }
 }
 
diff --git a/src/subchannel.rs b/src/subchannel.rs
index ed22f77..50ee466 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -135,8 +135,13 @@ impl SubChannel {
 
     async fn connect(&self, host: SocketAddr) -> TResult<(FrameInput, FrameOutput)> {
         let pool = self.connection_pools.get(host).await?;
-        let connection = pool.get().await?;
-        Ok(connection.new_frames_io().await?)
+        loop {
+            let connection = pool.get().await?;
+            // closed connection is going to be dropped by the pool
+            if !connection.is_closed() {
+                return Ok(connection.new_frames_io().await?);
+            }
+        }
     }
 
     async fn create_frames<REQ: Message>(&self, request: REQ) -> TResult<TFrameStream> {
-- 
2.43.0


From ad564117edb8e7a9bd5ceca6ebadd10294bc48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 09/23] fix: answer a failing request with an error frame
 instead of closing the connection

An unknown service or endpoint, an undecodable request or a handler error
ended the connection, together with all other requests in progress on it,
and left the caller without an answer.
---
 src/connection/mod.rs | 11 +++++++++--
 src/server.rs         | 28 ++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index f4c26b8..df9db4f 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -1,6 +1,6 @@
 use crate::errors::ConnectionError;
 use crate::frames::payloads::CodecResult;
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use futures::prelude::*;
 use futures::{self, SinkExt};
 use futures::{future, StreamExt};
@@ -63,9 +63,16 @@ impl FramesDispatcher {
         let senders = self.senders.read().await;
         if let Some(sender) = senders.get(frame.id()) {
             debug!("Dispatching frame (id {}) to found sender.", frame.id());
-            return Ok(sender.send(frame).map_ok(|_| None).await?);
+            if sender.send(frame).await.is_err() {
+                debug!("Message failed already. Dropping its frame.");
+            }
+            return Ok(None);
         }
         std::mem::drop(senders);
+        if let Type::CallRequestContinue | Type::CallResponseContinue = frame.frame().frame_type() {
+            debug!("Dropping fragment (id {}) of no message.", frame.id());
+            return Ok(None);
+        }
         //TODO it will return error on check if it got concurrently inserted
         self.dispatch_first(frame).map_ok(Some).await
     }
diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..a8e18b7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -7,9 +7,8 @@ use crate::fragmentation::ResponseFragmenter;
 use crate::frames::headers::InitHeaderKey;
 use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION};
 use crate::frames::payloads::{Init, Tracing};
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH};
 use crate::SubChannel;
-use futures::TryFutureExt;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -29,6 +28,9 @@ pub struct Server {
     server_tasks: usize,
 }
 
+/// Max frame length - header - error code - tracing - length of message
+const MAX_ERROR_MSG_LENGTH: usize = (FRAME_MAX_LENGTH - FRAME_HEADER_LENGTH) as usize - 1 - 25 - 2;
+
 type TFramedRead = FramedRead<OwnedReadHalf, TFrameIdCodec>;
 type TFramedWrite = FramedWrite<OwnedWriteHalf, TFrameIdCodec>;
 
@@ -158,15 +160,19 @@ struct FrameHandler {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
-            .and_then(|frames| self.send_frames(frames))
-            .await
+        let frames = match self.handle_input(id, frame_input).await {
+            Ok(frames) => frames,
+            Err(err) => {
+                vec![self.to_error_frame(ErrorCode::UnexpectedError, err.to_string(), id)?]
+            }
+        };
+        self.send_frames(frames).await
     }
 
     async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let (request_fields, message_args) =
-            RequestDefragmenter::new(frame_input).read_request().await?;
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
+        let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
@@ -206,7 +212,13 @@ impl FrameHandler {
         Ok(())
     }
 
-    fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
+    fn to_error_frame(&self, code: ErrorCode, mut msg: String, id: u32) -> CodecResult<TFrameId> {
+        // message has to fit into a single frame
+        let mut max_len = MAX_ERROR_MSG_LENGTH.min(msg.len());
+        while !msg.is_char_boundary(max_len) {
+            max_len -= 1;
+        }
+        msg.truncate(max_len);
         //TODO add meaningful tracing
         let tracing = Tracing::default();
         let err = ErrorMsg::new(code, tracing, msg);
-- 
2.43.0


From 11dbcec2a01c3e7a0160ae2dc9dde1227c77217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 10/23] fix: requests in progress do not stop the server from
 reading their fragments

With as many incomplete requests on a connection as there are server tasks
no more frames were read, so none of the requests could ever be completed.
---
 src/server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index a8e18b7..662d09f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -18,6 +18,7 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
+use tokio::sync::Semaphore;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 #[derive(Debug)]
@@ -74,12 +75,17 @@ impl Server {
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
             sender,
+            Semaphore::new(match self.server_tasks {
+                0 => usize::MAX >> 4, // no limit
+                limit => limit,
+            }),
         );
 
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame))
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            // limited by permits, because frames have to be read to complete requests in progress
+            .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -155,6 +161,7 @@ struct FrameHandler {
     subchannels: SharedSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
+    permits: Semaphore,
 }
 
 impl FrameHandler {
@@ -173,6 +180,7 @@ impl FrameHandler {
         let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
         let (request_fields, message_args) = request?;
+        let _permit = self.permits.acquire().await;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
-- 
2.43.0


From c15f0e8e6b7d45f17e3378bdb354110289b44675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 11/23] fix: release a connection of the server when its peer
 is gone

A request with missing fragments kept the connection task, and with it the
socket, waiting forever after the peer had disconnected.
---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 662d09f..3304d2a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,7 +9,7 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH};
 use crate::SubChannel;
-use futures::{self, SinkExt, StreamExt, TryStreamExt};
+use futures::{self, future, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -81,8 +81,12 @@ impl Server {
             }),
         );
 
+        // ends requests waiting for fragments which are not going to arrive
+        let end_incomplete = stream::once(self.frame_dispatchers.close())
+            .filter_map(|_| future::ready(None::<TResult<TFrameId>>));
         framed_read
             .map_err(TChannelError::CodecError)
+            .chain(end_incomplete)
             .try_filter_map(|frame| self.dispatch_frame(frame))
             // limited by permits, because frames have to be read to complete requests in progress
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
-- 
2.43.0


From 6e7aa5a9f1631a7635166a423476922a47cc8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 12/23] fix: answer ping requests

A ping closed the connection, so a client with test_connection turned on
could not use a connection to this server more than once.
---
 src/server.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 3304d2a..560ad8b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,6 +9,7 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH};
 use crate::SubChannel;
+use bytes::Bytes;
 use futures::{self, future, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -87,15 +88,26 @@ impl Server {
         framed_read
             .map_err(TChannelError::CodecError)
             .chain(end_incomplete)
-            .try_filter_map(|frame| self.dispatch_frame(frame))
+            .try_filter_map(|frame| self.dispatch_frame(frame, &handler))
             // limited by permits, because frames have to be read to complete requests in progress
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(
+        &self,
+        frame: TFrameId,
+        handler: &FrameHandler,
+    ) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
+        if let Type::PingRequest = frame.frame().frame_type() {
+            let ping_res = TFrame::new(Type::PingResponse, Bytes::new());
+            handler
+                .send_frames(vec![TFrameId::new(id, ping_res)])
+                .await?;
+            return Ok(None);
+        }
         self.frame_dispatchers
             .dispatch(frame)
             .await
-- 
2.43.0


From edd3c5e1da18b5aa6decb195200b296b8c64b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 13/23] fix: make SubChannel::unregister callable

SubChannels are only available as Arc<SubChannel>, on which a method taking
&mut self cannot be called.
---
 src/subchannel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subchannel.rs b/src/subchannel.rs
index 50ee466..3d47bea 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -106,7 +106,7 @@ impl SubChannel {
     }
 
     /// Unregisters request handler. Found handler will be dropped.
-    pub async fn unregister(&mut self, endpoint: impl AsRef<str>) -> TResult<()> {
+    pub async fn unregister(&self, endpoint: impl AsRef<str>) -> TResult<()> {
         let mut handlers = self.handlers.write().await;
         match handlers.remove(endpoint.as_ref()) {
             Some(_) => Ok(()),
-- 
2.43.0


From 8ab31918993d3e54855471cfbbb41da37ef77e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 14/23] fix: release the message id of an abandoned call

A call dropped before it was finished (e.g. by a timeout) stayed registered
on its connection.
---
 src/connection/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index df9db4f..ccf6f64 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -11,6 +11,7 @@ use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
+use tokio::runtime::Handle;
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::Mutex;
@@ -30,6 +31,8 @@ pub struct FrameOutput {
     message_id: u32,
     sender: Sender<TFrameId>,
     frames_dispatcher: Arc<FramesDispatcher>,
+    #[new(default)]
+    closed: AtomicBool,
 }
 
 impl FrameOutput {
@@ -42,6 +45,21 @@ impl FrameOutput {
     //TODO figure out how to automatically close it? impl Sink? do it on Drop (which is not async)?
     pub async fn close(&self) {
         self.frames_dispatcher.deregister(&self.message_id).await;
+        self.closed.store(true, Ordering::Release);
+    }
+}
+
+impl Drop for FrameOutput {
+    // Releases message id of a call which got dropped before it was able to close its output.
+    fn drop(&mut self) {
+        if self.closed.load(Ordering::Acquire) {
+            return;
+        }
+        if let Ok(runtime) = Handle::try_current() {
+            let id = self.message_id;
+            let frames_dispatcher = self.frames_dispatcher.clone();
+            runtime.spawn(async move { frames_dispatcher.deregister(&id).await });
+        }
     }
 }
 
-- 
2.43.0


From 04ceec014ce12b1eb2997481396a9ba1f126c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 15/23] verification hooks, guarded by cfg tchannel_verif

---
 src/connection/mod.rs | 11 +++++++++++
 src/lib.rs            |  6 ++++++
 src/server.rs         |  2 ++
 src/verif.rs          | 41 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 60 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index ccf6f64..eda3e11 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -124,6 +124,11 @@ impl FramesDispatcher {
         self.closed.load(Ordering::Acquire)
     }
 
+    #[cfg(tchannel_verif)]
+    pub fn pending(&self) -> Option<usize> {
+        self.senders.try_read().ok().map(|senders| senders.len())
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -173,6 +178,8 @@ impl Connection {
         let framed_write = FramedWrite::new(write, TFrameIdCodec {});
         let (sender, receiver) = mpsc::channel::<TFrameId>(buffer_size);
         let connection = Connection::new(sender, buffer_size);
+        #[cfg(tchannel_verif)]
+        crate::verif::created(true, &connection.pending_ids);
         let frame_sender = FrameSender::spawn(framed_write, receiver, buffer_size);
         FrameReceiver::spawn(framed_read, connection.pending_ids.clone(), frame_sender);
         Ok(connection)
@@ -204,6 +211,10 @@ impl Connection {
     }
 
     fn next_message_id(&self) -> u32 {
+        #[cfg(tchannel_verif)]
+        if let Some(id) = crate::verif::take_message_id() {
+            self.next_message_id.store(id, Ordering::Relaxed);
+        }
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index e6f07e8..7b13234 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -79,6 +79,8 @@
 //! }
 //! ```
 
+#![allow(unexpected_cfgs)] // cfg `tchannel_verif`
+
 #[macro_use]
 extern crate getset;
 #[macro_use]
@@ -101,6 +103,10 @@ pub(crate) mod frames;
 pub(crate) mod server;
 pub(crate) mod subchannel;
 
+/// Hooks of the verification machinery.
+#[cfg(tchannel_verif)]
+pub mod verif;
+
 /// TChannel errors.
 pub mod errors;
 /// Handlers registered in [`SubChannel`](crate::SubChannel) and called by server started from [`TChannel`](crate::TChannel).
diff --git a/src/server.rs b/src/server.rs
index 560ad8b..5ef5518 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -64,6 +64,8 @@ impl Server {
     }
 
     async fn handle_connection(&mut self, stream: TcpStream) -> TResult<()> {
+        #[cfg(tchannel_verif)]
+        crate::verif::created(false, &self.frame_dispatchers);
         let (read, write) = stream.into_split();
         let mut framed_read = FramedRead::new(read, TFrameIdCodec {});
         let mut framed_write = FramedWrite::new(write, TFrameIdCodec {});
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..e595ca3
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,41 @@
+//! Observation points for the verification machinery. Built only with `--cfg tchannel_verif`.
+//! All state is local to a thread.
+
+use crate::connection::FramesDispatcher;
+use std::cell::{Cell, RefCell};
+use std::sync::{Arc, Weak};
+
+thread_local! {
+    static NEXT_ID: Cell<Option<u32>> = Cell::new(None);
+    static DISPATCHERS: RefCell<Vec<(bool, Weak<FramesDispatcher>)>> = RefCell::new(Vec::new());
+}
+
+/// The next message id taken by any client connection will be `id`, as if ids in between got used.
+pub fn jump_to_message_id(id: u32) {
+    NEXT_ID.with(|next| next.set(Some(id)));
+}
+
+pub(crate) fn take_message_id() -> Option<u32> {
+    NEXT_ID.with(|next| next.take())
+}
+
+pub(crate) fn created(client: bool, dispatcher: &Arc<FramesDispatcher>) {
+    DISPATCHERS.with(|all| all.borrow_mut().push((client, Arc::downgrade(dispatcher))));
+}
+
+/// Forgets all connections created so far.
+pub fn reset() {
+    NEXT_ID.with(|next| next.set(None));
+    DISPATCHERS.with(|all| all.borrow_mut().clear());
+}
+
+/// Connections still existing: if it is a client one, and how many message ids are registered.
+/// The number is missing while ids are being changed.
+pub fn connections() -> Vec<(bool, Option<usize>)> {
+    DISPATCHERS.with(|all| {
+        all.borrow()
+            .iter()
+            .filter_map(|(client, weak)| Some((*client, weak.upgrade()?.pending())))
+            .collect()
+    })
+}
-- 
2.43.0


From 50d3acb898820c52ad685d48b47d685b9bbc1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 16/23] fix: a fragment of a response does not continue a
 request, nor the other way round

---
 src/defragmentation.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 192c2bb..9c5dedd 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -102,7 +102,16 @@ impl Defragmenter {
             let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
             return Ok((fields, message_args));
         }
-        read_continuation(&mut self.frame_input, &mut args_defragmenter).await?;
+        let continuation_type = match frame_type {
+            Type::CallRequest => Type::CallRequestContinue,
+            _ => Type::CallResponseContinue,
+        };
+        read_continuation(
+            &mut self.frame_input,
+            continuation_type,
+            &mut args_defragmenter,
+        )
+        .await?;
         let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
         Ok((fields, message_args))
     }
@@ -163,6 +172,7 @@ fn get_args_scheme<FIELDS: CallFields>(fields: &FIELDS) -> CodecResult<ArgScheme
 
 async fn read_continuation(
     frame_input: &mut FrameInput,
+    continuation_type: Type,
     args_defragmenter: &mut ArgsDefragmenter,
 ) -> TResult<()> {
     debug!("Reading continuation");
@@ -172,7 +182,7 @@ async fn read_continuation(
         })?;
         let mut frame = frame_id.frame;
         match frame.frame_type() {
-            Type::CallResponseContinue | Type::CallRequestContinue => {
+            frame_type if *frame_type == continuation_type => {
                 debug!("Reading frame with type {:?}", frame.frame_type());
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
-- 
2.43.0


From a3d1b074da8e5732810a5b93f8abb64436ace65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 17/23] fix: frames repeated by a peer after a handshake or
 ping do not block the connection

---
 src/connection/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index eda3e11..adea6a6 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -190,6 +190,7 @@ impl Connection {
         let (mut frame_input, frame_output) = self.new_frames_io().await?;
         frame_output.send(frame).await?;
         let response = frame_input.recv().await;
+        std::mem::drop(frame_input); // further frames must not block the connection
         frame_output.close().await;
         response.ok_or_else(|| ConnectionError::Error("Received no response".to_owned()))
     }
-- 
2.43.0


From 5e07152c384935058b45f0732af8ac36c5dab3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 18/23] fix: callers waiting for a connection get another one
 when it breaks

---
 src/connection/pool.rs | 83 +++++++++++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 17 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 08798fb..738de19 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -7,21 +7,27 @@ use crate::frames::payloads::Init;
 use crate::frames::payloads::{Codec, PROTOCOL_VERSION};
 use crate::frames::{TFrame, TFrameId, Type};
 use async_trait::async_trait;
-use bb8::{ErrorSink, Pool, RunError};
+use bb8::{ErrorSink, Pool, PooledConnection, RunError};
 use bytes::Bytes;
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::net::SocketAddr;
+use std::ops::Deref;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::net::TcpStream;
-use tokio::sync::RwLock;
+use tokio::sync::{RwLock, Semaphore, SemaphorePermit};
+use tokio::time::timeout;
+
+/// Time to wait for a connection.
+const CONNECTION_TIMEOUT: Duration = Duration::from_secs(30);
 
 #[derive(Debug, Default, new)]
 pub struct ConnectionPools {
     config: Arc<Config>,
     #[new(default)]
-    pools: RwLock<HashMap<SocketAddr, Arc<Pool<ConnectionManager>>>>,
+    pools: RwLock<HashMap<SocketAddr, Arc<ConnectionPool>>>,
     #[new(default)]
     connection_pools_logger: ConnectionPoolsLogger,
 }
@@ -30,7 +36,7 @@ impl ConnectionPools {
     pub async fn get(
         &self,
         addr: SocketAddr,
-    ) -> Result<Arc<Pool<ConnectionManager>>, RunError<ConnectionError>> {
+    ) -> Result<Arc<ConnectionPool>, RunError<ConnectionError>> {
         if let Some(pool) = self.pools.read().await.get(&addr) {
             return Ok(pool.clone());
         }
@@ -40,29 +46,72 @@ impl ConnectionPools {
     async fn create_pool(
         &self,
         addr: SocketAddr,
-    ) -> Result<Arc<Pool<ConnectionManager>>, RunError<ConnectionError>> {
+    ) -> Result<Arc<ConnectionPool>, RunError<ConnectionError>> {
         debug!("Creating connection pool for '{}'", addr);
         let mut pools = self.pools.write().await;
         if let Some(pool) = pools.get(&addr) {
             return Ok(pool.clone());
         }
-        let pool = Arc::new(
-            Pool::builder()
-                .max_lifetime(self.config.lifetime)
-                .max_size(self.config.max_connections)
-                .test_on_check_out(self.config.test_connection)
-                .error_sink(self.connection_pools_logger.boxed_clone())
-                .build(ConnectionManager {
-                    addr,
-                    frame_buffer_size: self.config.frame_buffer_size,
-                })
-                .await?,
-        );
+        let pool = Pool::builder()
+            .max_lifetime(self.config.lifetime)
+            .max_size(self.config.max_connections)
+            .connection_timeout(CONNECTION_TIMEOUT)
+            .test_on_check_out(self.config.test_connection)
+            .error_sink(self.connection_pools_logger.boxed_clone())
+            .build(ConnectionManager {
+                addr,
+                frame_buffer_size: self.config.frame_buffer_size,
+            })
+            .await?;
+        let pool = Arc::new(ConnectionPool {
+            pool,
+            permits: Semaphore::new(self.config.max_connections as usize),
+        });
         pools.insert(addr, pool.clone());
         Ok(pool)
     }
 }
 
+/// Connections to one address.
+#[derive(Debug)]
+pub struct ConnectionPool {
+    pool: Pool<ConnectionManager>,
+    /// `Pool` does not replace a broken connection for a caller which waits for it to be returned.
+    /// With no more callers than connections nobody has to wait for a connection used by another.
+    permits: Semaphore,
+}
+
+impl ConnectionPool {
+    pub async fn get(&self) -> Result<CheckedOut<'_>, RunError<ConnectionError>> {
+        let checkout = async {
+            let permit = self.permits.acquire().await.ok()?;
+            Some(self.pool.get().await.map(|connection| CheckedOut {
+                connection,
+                _permit: permit,
+            }))
+        };
+        match timeout(CONNECTION_TIMEOUT, checkout).await {
+            Ok(Some(result)) => result,
+            _ => Err(RunError::TimedOut),
+        }
+    }
+}
+
+/// Connection which gets returned to its pool when dropped.
+#[derive(Debug)]
+pub struct CheckedOut<'a> {
+    connection: PooledConnection<'a, ConnectionManager>,
+    _permit: SemaphorePermit<'a>, // dropped after connection
+}
+
+impl Deref for CheckedOut<'_> {
+    type Target = Connection;
+
+    fn deref(&self) -> &Self::Target {
+        &self.connection
+    }
+}
+
 #[derive(Debug, Clone, Copy, Default)]
 struct ConnectionPoolsLogger;
 
-- 
2.43.0


From 4a1ea0414e4e737078bbe6d8ae6a79b00943cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 19/23] fix: a server started again right after a stop waits
 for its address

---
 src/channel.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9199598..5ecf020 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -24,6 +24,8 @@ pub struct TChannel {
     connection_pools: Arc<ConnectionPools>,
     subchannels: SharedSubChannels,
     server_handle: ServerHandle,
+    /// Held by a server task until it releases its address, which happens some time after its stop.
+    running_server: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl TChannel {
@@ -37,6 +39,7 @@ impl TChannel {
             connection_pools: Arc::new(connection_pools),
             subchannels,
             server_handle: Mutex::new(None),
+            running_server: Arc::new(tokio::sync::Mutex::new(())),
         })
     }
 
@@ -45,7 +48,12 @@ impl TChannel {
         let mut handle_lock = self.server_handle.lock().unwrap();
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
-            let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
+            let (config, subchannels) = (self.config.clone(), self.subchannels.clone());
+            let running_server = self.running_server.clone();
+            let handle = tokio::spawn(async move {
+                let _running = running_server.lock_owned().await;
+                Server::run(config, subchannels).await
+            });
             *handle_lock = Some(handle);
         } else {
             return Err(TChannelError::Error("Server already started".to_string()));
-- 
2.43.0


From 7a257e8a929e5bb330e9f57289433e4202278a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 20/23] fix: a server keeps accepting connections after a
 failure to accept one

---
 src/server.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 5ef5518..3ef0b52 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -15,11 +15,13 @@ use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
 use tokio::sync::Semaphore;
+use tokio::time::sleep;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 #[derive(Debug)]
@@ -33,6 +35,9 @@ pub struct Server {
 /// Max frame length - header - error code - tracing - length of message
 const MAX_ERROR_MSG_LENGTH: usize = (FRAME_MAX_LENGTH - FRAME_HEADER_LENGTH) as usize - 1 - 25 - 2;
 
+/// Delay after a failure to accept a connection.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
+
 type TFramedRead = FramedRead<OwnedReadHalf, TFrameIdCodec>;
 type TFramedWrite = FramedWrite<OwnedWriteHalf, TFrameIdCodec>;
 
@@ -50,7 +55,15 @@ impl Server {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
-            let (stream, addr) = listener.accept().await?;
+            let (stream, addr) = match listener.accept().await {
+                Ok(accepted) => accepted,
+                Err(err) => {
+                    // Connections may be accepted again, e.g. once there are file descriptors.
+                    error!("Failed to accept a connection: {}", err);
+                    sleep(ACCEPT_RETRY_DELAY).await;
+                    continue;
+                }
+            };
             debug!("Handling incoming connection from {}", addr);
             let subchannels = subchannels.clone();
             let mut server =
-- 
2.43.0


From b086b87bcaa5675f88456759997b2936bd37f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 21/23] fix: a caller does not wait for a connection which is
 idle

---
 src/connection/mod.rs  | 11 +++++++++++
 src/connection/pool.rs | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index adea6a6..ffaadd6 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -160,6 +160,7 @@ pub struct Connection {
     pending_ids: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
     buffer_size: usize,
+    discarded: AtomicBool,
 }
 
 impl Connection {
@@ -169,6 +170,7 @@ impl Connection {
             pending_ids: Arc::new(FramesDispatcher::new(buffer_size)),
             sender,
             buffer_size,
+            discarded: AtomicBool::new(false),
         }
     }
 
@@ -211,6 +213,15 @@ impl Connection {
         self.pending_ids.is_closed()
     }
 
+    /// Keeps connection from being used by further calls.
+    pub fn discard(&self) {
+        self.discarded.store(true, Ordering::Release);
+    }
+
+    pub fn is_discarded(&self) -> bool {
+        self.discarded.load(Ordering::Acquire)
+    }
+
     fn next_message_id(&self) -> u32 {
         #[cfg(tchannel_verif)]
         if let Some(id) = crate::verif::take_message_id() {
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 738de19..7f3dbf0 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -9,6 +9,7 @@ use crate::frames::{TFrame, TFrameId, Type};
 use async_trait::async_trait;
 use bb8::{ErrorSink, Pool, PooledConnection, RunError};
 use bytes::Bytes;
+use futures::FutureExt;
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -56,7 +57,7 @@ impl ConnectionPools {
             .max_lifetime(self.config.lifetime)
             .max_size(self.config.max_connections)
             .connection_timeout(CONNECTION_TIMEOUT)
-            .test_on_check_out(self.config.test_connection)
+            .test_on_check_out(false) // done by `ConnectionPool`
             .error_sink(self.connection_pools_logger.boxed_clone())
             .build(ConnectionManager {
                 addr,
@@ -66,6 +67,7 @@ impl ConnectionPools {
         let pool = Arc::new(ConnectionPool {
             pool,
             permits: Semaphore::new(self.config.max_connections as usize),
+            test_connection: self.config.test_connection,
         });
         pools.insert(addr, pool.clone());
         Ok(pool)
@@ -79,13 +81,14 @@ pub struct ConnectionPool {
     /// `Pool` does not replace a broken connection for a caller which waits for it to be returned.
     /// With no more callers than connections nobody has to wait for a connection used by another.
     permits: Semaphore,
+    test_connection: bool,
 }
 
 impl ConnectionPool {
     pub async fn get(&self) -> Result<CheckedOut<'_>, RunError<ConnectionError>> {
         let checkout = async {
             let permit = self.permits.acquire().await.ok()?;
-            Some(self.pool.get().await.map(|connection| CheckedOut {
+            Some(self.checkout().await.map(|connection| CheckedOut {
                 connection,
                 _permit: permit,
             }))
@@ -95,12 +98,36 @@ impl ConnectionPool {
             _ => Err(RunError::TimedOut),
         }
     }
+
+    async fn checkout(&self) -> Result<Pooled<'_>, RunError<ConnectionError>> {
+        loop {
+            let mut checkout = Box::pin(self.pool.get());
+            let connection = match checkout.as_mut().now_or_never() {
+                Some(connection) => connection?,
+                // `Pool` misses a connection which gets returned right before it starts to wait.
+                None if self.pool.state().idle_connections > 0 => continue,
+                None => return checkout.await,
+            };
+            if !self.test_connection {
+                return Ok(connection);
+            }
+            match ping(&connection).await {
+                Ok(()) => return Ok(connection),
+                Err(err) => {
+                    error!("Connection error {:?}", err);
+                    connection.discard();
+                }
+            }
+        }
+    }
 }
 
+type Pooled<'a> = PooledConnection<'a, ConnectionManager>;
+
 /// Connection which gets returned to its pool when dropped.
 #[derive(Debug)]
 pub struct CheckedOut<'a> {
-    connection: PooledConnection<'a, ConnectionManager>,
+    connection: Pooled<'a>,
     _permit: SemaphorePermit<'a>, // dropped after connection
 }
 
@@ -152,7 +179,7 @@ impl bb8::ManageConnection for ConnectionManager {
     }
 
     fn has_broken(&self, conn: &mut Self::Connection) -> bool {
-        conn.is_closed()
+        conn.is_closed() || conn.is_discarded()
     }
 }
 
-- 
2.43.0


From 523ded46ed714f535561ca5c362428f6f5ba4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 22/23] fix: give up connecting to a peer which does not answer

---
 src/connection/pool.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7f3dbf0..8e6bb14 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -168,9 +168,18 @@ impl bb8::ManageConnection for ConnectionManager {
 
     async fn connect(&self) -> Result<Self::Connection, Self::Error> {
         debug!("Connecting to {}", self.addr);
-        let stream = TcpStream::connect(self.addr).await?;
-        let connection = Connection::connect(stream, self.frame_buffer_size).await?;
-        verify(connection).await
+        let connect = async {
+            let stream = TcpStream::connect(self.addr).await?;
+            let connection = Connection::connect(stream, self.frame_buffer_size).await?;
+            verify(connection).await
+        };
+        match timeout(CONNECTION_TIMEOUT, connect).await {
+            Ok(connection) => connection,
+            Err(_) => Err(ConnectionError::Error(format!(
+                "Timed out connecting to {}",
+                self.addr
+            ))),
+        }
     }
 
     async fn is_valid(&self, conn: &mut Self::Connection) -> Result<(), Self::Error> {
-- 
2.43.0


From 33bfa15d038497226f92071e5b3491ea1e8f9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 23/23] fix: a connection test which is not answered fails

---
 src/connection/pool.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 8e6bb14..ecb8323 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -23,6 +23,8 @@ use tokio::time::timeout;
 
 /// Time to wait for a connection.
 const CONNECTION_TIMEOUT: Duration = Duration::from_secs(30);
+/// Time to wait for the result of a connection test.
+const TEST_TIMEOUT: Duration = Duration::from_secs(10);
 
 #[derive(Debug, Default, new)]
 pub struct ConnectionPools {
@@ -111,12 +113,16 @@ impl ConnectionPool {
             if !self.test_connection {
                 return Ok(connection);
             }
-            match ping(&connection).await {
-                Ok(()) => return Ok(connection),
-                Err(err) => {
+            match timeout(TEST_TIMEOUT, ping(&connection)).await {
+                Ok(Ok(())) => return Ok(connection),
+                Ok(Err(err)) => {
                     error!("Connection error {:?}", err);
                     connection.discard();
                 }
+                Err(_) => {
+                    error!("Connection test timed out");
+                    connection.discard();
+                }
             }
         }
     }
-- 
2.43.0

