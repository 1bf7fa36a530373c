From f6cae9236c7d6b0df55fedd5a7676c66f205bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 01/31] fix: choose between repeated Host and Content-Length
 headers by order

Headers whose names differ only in case are distinct keys of a HashMap, so
which one was used depended on its random iteration order: the same bytes
could give different requests.
---
 puck/src/request/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..dc02f75 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -81,8 +81,17 @@ impl Request {
             map
         };
 
+        // Names that differ only in case are separate keys of `headers`, which iterates over them in
+        // random order. Look headers up in the order they were sent (the last one counts).
+        let ordered: Vec<_> = req
+            .headers
+            .iter()
+            .rev()
+            .filter_map(|header| headers.get_key_value(header.name))
+            .collect();
+
         let url =
-            if let Some((_, host)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
+            if let Some((_, host)) = ordered.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
                 if url.starts_with("http://") || url.starts_with("https://") {
                     Url::parse(url)
@@ -100,7 +109,7 @@ impl Request {
 
         let body = Body::from_reader(
             reader,
-            headers
+            ordered
                 .iter()
                 .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
-- 
2.43.0


From 24013a6d98f3124df8e5658c3ce16411d50721e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 02/31] fix: write HEAD requests with a valid request line

---
 puck/src/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index dc02f75..a6df5c6 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -241,7 +241,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From 54b795ea5c65e661b53c6e0d4ed5de43d4eb0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 03/31] fix: include the query when writing a request

---
 puck/src/request/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index a6df5c6..b07151a 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -127,8 +127,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
-        write!(write, "HTTP/1.1\r\n")?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
         }
-- 
2.43.0


From 4317b81cc68875266a6ad572adea786e9fd91eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 04/31] fix: take a parsed response's body length from
 Content-Length

---
 puck/src/response/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..35c391a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -108,7 +108,7 @@ impl Response {
             reader,
             headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
+                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
         );
 
-- 
2.43.0


From 3cdbc7e2f56707b970ce500a6867106521f0a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 05/31] fix: report malformed response headers instead of
 ignoring them

---
 puck/src/response/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 35c391a..2e3b11a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,7 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        let _ = res.parse(&buf)?;
 
         let headers = {
             let mut map = HashMap::new();
@@ -140,6 +140,8 @@ impl Response {
 /// An error encountered when parsing a `Response`.
 #[allow(missing_docs)]
 pub enum ParseResponseError {
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
     #[error("io error")]
     IoError(io::Error),
     #[error("the status code was not supplied")]
@@ -150,6 +152,12 @@ pub enum ParseResponseError {
     Utf8Error,
 }
 
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
+}
+
 impl From<io::Error> for ParseResponseError {
     fn from(error: io::Error) -> Self {
         Self::IoError(error)
-- 
2.43.0


From c77f08d921a4d3f252442cc6b3355c2cf99812dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 06/31] fix: read exactly one WebSocket frame at a time

A fresh BufReader per frame threw away the frames that followed in its
buffer, a short read was taken for the end of the stream, and the masking
key of an empty frame was left to be read as the next frame.
---
 puck/src/ws/frame.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..fd67189 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,14 +19,13 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
-
+    ///
+    /// This reads exactly the bytes of the frame, so that the next frame can be parsed from the same
+    /// stream.
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream.read_exact(&mut buffer)?;
             (buffer[0], buffer[1])
         };
 
@@ -51,8 +50,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -60,15 +59,13 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
+        let decoded = if masked {
             let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream.read_exact(&mut masking_key)?;
 
             let mut encoded = Vec::with_capacity(payload_length as usize);
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
-- 
2.43.0


From b9d6c888414ecff75b9215536f44fc25d526a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 07/31] fix: don't let a WebSocket client crash the reader with
 an absurd length

---
 puck/src/ws/frame.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index fd67189..c22c264 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -55,6 +55,11 @@ impl Frame {
             i => i as u64,
         };
 
+        // a payload which could never be held in memory
+        if payload_length > isize::MAX as u64 {
+            return Err(ParseFrameError::PayloadTooLong);
+        }
+
         if payload_length > 0 && !masked {
             return Err(ParseFrameError::MaskNotSet);
         }
@@ -63,7 +68,8 @@ impl Frame {
             let mut masking_key = [0_u8; 4];
             stream.read_exact(&mut masking_key)?;
 
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+            // the length is whatever the client claims: allocate as the data arrives
+            let mut encoded = Vec::new();
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
@@ -187,6 +193,8 @@ pub enum ParseFrameError {
     InvalidOpCode,
     #[error("not enough data supplied")]
     InsufficientData,
+    #[error("the payload is too long")]
+    PayloadTooLong,
     #[error("wait for next frame")]
     WaitForNextFrame(u64),
 }
-- 
2.43.0


From 5df147fe11703bd4f4b8c4d8a2ac24edf3844eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 08/31] fix: write each WebSocket frame at once

---
 puck/src/ws/send.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index cd329a5..956229d 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -10,8 +10,11 @@ pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameErro
 }
 
 pub(crate) fn send_frame(mut stream: impl Write, frame: Frame) -> Result<(), SendFrameError> {
-    frame.format(&mut stream)?;
-    stream.write_all(frame.decoded())?;
+    // a single write, so that frames sent by other processes can't end up inside of this one
+    let mut buffer = Vec::with_capacity(frame.decoded().len() + 10);
+    frame.format(&mut buffer)?;
+    buffer.extend_from_slice(frame.decoded());
+    stream.write_all(&buffer)?;
 
     Ok(())
 }
-- 
2.43.0


From 61500f88cd15215904b72b235d673cd67a3ecf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 09/31] fix: encode a WebSocket payload length of 65535 in two
 bytes

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index c22c264..0fdd369 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -134,7 +134,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -146,7 +146,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From 3ec4593460e89027ee0a75884cfb254ab97ae5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 10/31] fix: reject WebSocket frames that RFC 6455 does not
 allow

---
 puck/src/ws/frame.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 0fdd369..7035389 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -55,6 +55,19 @@ impl Frame {
             i => i as u64,
         };
 
+        // no extension which could give them a meaning is ever negotiated
+        if rsv1 || rsv2 || rsv3 {
+            return Err(ParseFrameError::ReservedBitsSet);
+        }
+
+        match op_code {
+            OpCode::Reserved => return Err(ParseFrameError::InvalidOpCode),
+            OpCode::Terminate | OpCode::Ping | OpCode::Pong if !fin || payload_length > 125 => {
+                return Err(ParseFrameError::InvalidControlFrame)
+            }
+            _ => {}
+        }
+
         // a payload which could never be held in memory
         if payload_length > isize::MAX as u64 {
             return Err(ParseFrameError::PayloadTooLong);
@@ -193,6 +206,10 @@ pub enum ParseFrameError {
     InvalidOpCode,
     #[error("not enough data supplied")]
     InsufficientData,
+    #[error("a reserved bit is set")]
+    ReservedBitsSet,
+    #[error("control frames must be short and can't be fragmented")]
+    InvalidControlFrame,
     #[error("the payload is too long")]
     PayloadTooLong,
     #[error("wait for next frame")]
-- 
2.43.0


From a53a903af8e87ad2f415f0e2d6ce476f362f9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 11/31] fix: accept control frames in between the fragments of
 a WebSocket message

They were taken for a protocol violation, and continuation frames of a
message that was never started were only rejected at its end.
---
 puck/src/ws/message.rs   | 112 ++++++++++++++++++---------------------
 puck/src/ws/websocket.rs |   8 ++-
 2 files changed, 57 insertions(+), 63 deletions(-)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 835b195..a7dbfff 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -23,86 +23,76 @@ pub enum Message {
 impl Message {
     /// Parse the next message from the stream.
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
-        log::trace!("trying to parse next message");
-        let first = Frame::parse(stream.clone())?;
+        Self::resume(stream, &mut None)
+    }
 
-        if first.op_code() == &OpCode::Terminate {
-            trace!("Client asked to close connection");
-            return Err(DecodeMessageError::ClientSentCloseFrame);
-        }
+    /// Parse the next message from the stream, given the fragments of a message which have already
+    /// been received (control frames can be sent in between these).
+    pub(crate) fn resume(
+        stream: impl Read + Clone,
+        fragments: &mut Option<Fragments>,
+    ) -> Result<Self, DecodeMessageError> {
+        log::trace!("trying to parse next message");
+        loop {
+            let frame = Frame::parse(stream.clone())?;
+            let fin = *frame.fin();
 
-        if *first.fin() {
-            return match first.op_code() {
-                crate::ws::frame::OpCode::Binary => Ok(Self::Binary(first.take_decoded())),
-                crate::ws::frame::OpCode::Text => Ok(Self::Text(
-                    String::from_utf8(first.take_decoded())
-                        .map_err(|_| DecodeMessageError::ClientProtocolViolationError)?,
-                )),
-                crate::ws::frame::OpCode::Ping => {
-                    let payload = first.take_decoded();
-                    Ok(Self::Ping(if !payload.is_empty() {
+            match frame.op_code() {
+                OpCode::Terminate => {
+                    trace!("Client asked to close connection");
+                    return Err(DecodeMessageError::ClientSentCloseFrame);
+                }
+                OpCode::Ping => {
+                    let payload = frame.take_decoded();
+                    return Ok(Self::Ping(if !payload.is_empty() {
                         Some(payload)
                     } else {
                         None
-                    }))
+                    }));
                 }
-                crate::ws::frame::OpCode::Pong => {
-                    let payload = first.take_decoded();
-                    Ok(Self::Pong(if !payload.is_empty() {
+                OpCode::Pong => {
+                    let payload = frame.take_decoded();
+                    return Ok(Self::Pong(if !payload.is_empty() {
                         Some(payload)
                     } else {
                         None
-                    }))
+                    }));
                 }
-                _ => Err(DecodeMessageError::ClientProtocolViolationError),
-            };
-        }
-
-        let op_code = *first.op_code();
-
-        let mut payload = first.take_decoded();
-
-        loop {
-            let msg = Frame::parse(stream.clone())?;
-
-            if msg.op_code() == &OpCode::Terminate {
-                trace!("Client asked to close connection");
-                return Err(DecodeMessageError::ClientSentCloseFrame);
-            }
-
-            if msg.op_code() != &OpCode::Continue {
-                return Err(DecodeMessageError::ClientProtocolViolationError);
+                OpCode::Text | OpCode::Binary if fragments.is_none() => {
+                    *fragments = Some(Fragments {
+                        text: frame.op_code() == &OpCode::Text,
+                        payload: frame.take_decoded(),
+                    });
+                }
+                OpCode::Continue => match fragments {
+                    Some(fragments) => fragments.payload.extend(frame.take_decoded()),
+                    None => return Err(DecodeMessageError::ClientProtocolViolationError),
+                },
+                _ => return Err(DecodeMessageError::ClientProtocolViolationError),
             }
 
-            let fin = *msg.fin();
-
-            payload.extend(msg.take_decoded());
-
             if fin {
-                return match op_code {
-                    crate::ws::frame::OpCode::Binary => Ok(Self::Binary(payload)),
-                    crate::ws::frame::OpCode::Text => {
-                        Ok(Self::Text(String::from_utf8(payload).map_err(|_| {
-                            DecodeMessageError::ClientProtocolViolationError
-                        })?))
-                    }
-                    crate::ws::frame::OpCode::Ping => Ok(Self::Ping(if !payload.is_empty() {
-                        Some(payload)
+                if let Some(Fragments { text, payload }) = fragments.take() {
+                    return if text {
+                        String::from_utf8(payload)
+                            .map(Self::Text)
+                            .map_err(|_| DecodeMessageError::ClientProtocolViolationError)
                     } else {
-                        None
-                    })),
-                    crate::ws::frame::OpCode::Pong => Ok(Self::Pong(if !payload.is_empty() {
-                        Some(payload)
-                    } else {
-                        None
-                    })),
-                    _ => Err(DecodeMessageError::ClientProtocolViolationError),
-                };
+                        Ok(Self::Binary(payload))
+                    };
+                }
             }
         }
     }
 }
 
+/// The part of a fragmented message which has been received so far.
+#[derive(Debug, Clone, Serialize, Deserialize)]
+pub(crate) struct Fragments {
+    text: bool,
+    payload: Vec<u8>,
+}
+
 #[derive(thiserror::Error, Debug)]
 /// An error encountered when trying to decode a WebSocket message.
 #[allow(missing_docs)]
diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 9df687d..5125e1d 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -7,7 +7,7 @@ use crate::core::UsedStream;
 
 use super::{
     frame::Frame,
-    message::Message,
+    message::{Fragments, Message},
     send::{self, send_frame, SendFrameError},
 };
 
@@ -20,6 +20,7 @@ use super::{
 pub struct WebSocket {
     stream: TcpStream,
     state: WebSocketState,
+    fragments: Option<Fragments>,
 }
 
 #[derive(Debug, serde::Serialize, serde::Deserialize, Clone, Copy)]
@@ -37,6 +38,7 @@ impl WebSocket {
         Self {
             stream,
             state: WebSocketState::Open,
+            fragments: None,
         }
     }
 
@@ -75,6 +77,7 @@ impl WebSocket {
         Self {
             stream: self.stream.clone(),
             state: self.state,
+            fragments: self.fragments.clone(),
         }
     }
 }
@@ -84,7 +87,8 @@ impl Iterator for WebSocket {
 
     fn next(&mut self) -> Option<Result<Message, NextMessageError>> {
         Some(match self.state {
-            WebSocketState::Open => match Message::next(self.stream.clone()) {
+            WebSocketState::Open => match Message::resume(self.stream.clone(), &mut self.fragments)
+            {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
                         send_frame(
-- 
2.43.0


From 92827a8fa182c5975834213fa60d08d5d9eef6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 12/31] fix: treat a WebSocket connection as closed once
 reading from it failed

A lost connection was reported as a client error again and again, so that a
loop which ignores client errors never ended; and after a protocol violation
reading went on at a position which need not be the start of a frame.
---
 puck/src/ws/websocket.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 5125e1d..765cece 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -108,6 +108,7 @@ impl Iterator for WebSocket {
                 }
                 Err(e) => match e {
                     super::message::DecodeMessageError::ClientProtocolViolationError => {
+                        self.state = WebSocketState::Closed;
                         Err(NextMessageError::ClientError)
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
-- 
2.43.0


From 979dabb08b1fbe24497cb04cca9589ef2ad3c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 13/31] fix: don't panic when a WebSocket reply can't be sent

Losing the connection is reported by next() and close() instead.
---
 puck/src/ws/websocket.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 765cece..afe1b12 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -61,7 +61,7 @@ impl WebSocket {
     pub fn close(self) -> Result<UsedStream, SendFrameError> {
         match self.state {
             WebSocketState::Open => {
-                send_close_frame(self.stream.clone());
+                send_close_frame(self.stream.clone())?;
             }
             WebSocketState::Closed => {}
         };
@@ -91,7 +91,7 @@ impl Iterator for WebSocket {
             {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
-                        send_frame(
+                        let pong = send_frame(
                             self.stream.clone(),
                             Frame {
                                 fin: true,
@@ -101,8 +101,12 @@ impl Iterator for WebSocket {
                                 op_code: super::frame::OpCode::Pong,
                                 decoded: payload.clone().unwrap_or_default(),
                             },
-                        )
-                        .expect("failed to send pong");
+                        );
+                        if pong.is_err() {
+                            trace!("Failed to send pong");
+                            self.state = WebSocketState::Closed;
+                            return Some(Err(NextMessageError::ConnectionClosed));
+                        }
                     }
                     Ok(msg)
                 }
@@ -113,7 +117,9 @@ impl Iterator for WebSocket {
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
                         self.state = WebSocketState::Closed;
-                        send_close_frame(self.stream.clone());
+                        if send_close_frame(self.stream.clone()).is_err() {
+                            trace!("Failed to send close frame");
+                        }
                         Err(NextMessageError::ConnectionClosed)
                     }
                 },
@@ -134,7 +140,7 @@ pub enum NextMessageError {
     ConnectionClosed,
 }
 
-fn send_close_frame(stream: impl Write) {
+fn send_close_frame(stream: impl Write) -> Result<(), SendFrameError> {
     trace!("Sending close frame");
     send_frame(
         stream,
@@ -147,5 +153,4 @@ fn send_close_frame(stream: impl Write) {
             decoded: vec![],
         },
     )
-    .expect("failed to send close frame");
 }
-- 
2.43.0


From 2a98895b6c68f042d99785a9579702369f81640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 14/31] fix: recognise WebSocket handshakes regardless of the
 case of header names

and "upgrade" only as an element of the Connection header, not as a part of
one.
---
 puck/src/ws/upgrade.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..d22d314 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -8,16 +8,18 @@ use crate::{err_400, write_response, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
+    header_values(req, "Upgrade").any(|val| val.eq_ignore_ascii_case("websocket"))
+        && header_values(req, "Connection")
+            .flat_map(|val| val.split(','))
+            .any(|option| option.trim().eq_ignore_ascii_case("upgrade"))
+}
+
+/// The values of the headers with the given name (the case of which does not matter).
+fn header_values<'a>(req: &'a crate::Request, name: &'a str) -> impl Iterator<Item = &'a String> {
     req.headers
-        .get("Upgrade")
-        .map(|val| val.to_ascii_lowercase() == "websocket")
-        .unwrap_or_default()
-        // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
-            .map(|val| val.to_ascii_lowercase().contains("upgrade"))
-            .unwrap_or_default()
+        .iter()
+        .filter(move |(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, val)| val)
 }
 
 /// The 'magic string' used to upgrade WebSocket connections.
@@ -28,7 +30,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match header_values(req, "Sec-WebSocket-Key").next() {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From e0fcf3fea5226f757b00a4832cce8d3d7cdea9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 15/31] fix: choose between repeated Content-Length headers of
 a response by order

---
 puck/src/response/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 2e3b11a..5ed91c1 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -106,10 +106,14 @@ impl Response {
 
         let body = Body::from_reader(
             reader,
-            headers
+            // Names that differ only in case are separate keys of `headers`, which iterates over them
+            // in random order. Look the length up in the order it was sent (the last one counts).
+            res.headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
+                .rev()
+                .find(|header| header.name.eq_ignore_ascii_case("content-length"))
+                .and_then(|header| std::str::from_utf8(header.value).ok())
+                .and_then(|len| len.parse::<usize>().ok()),
         );
 
         Ok(Some(Self {
-- 
2.43.0


From 7c95f6eb39f256100600630ccff00d35a4f5f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 16/31] fix: liveview client: keep "+" in attribute values and
 listener names

---
 puck_liveview/client/index.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c356ddd..6ff5937 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -16,7 +16,9 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
             console.log(document.getElementById(data.el));
-            let split = data["payload"].split("+");
+            // the value may contain "+" as well
+            let at = data["payload"].indexOf("+");
+            let split = [data["payload"].slice(0, at), data["payload"].slice(at + 1)];
             console.log(split[1]);
             let el = document.getElementById(data.el);
             el.setAttribute(split[0], split[1]);
@@ -37,7 +39,9 @@ ws.onmessage = (msg) => {
             console.log(data);
             document.getElementById(data["el"]).textContent = data["payload"];
         } else if (data.ty === "attachListener") {
-            let split = data.payload.split("+");
+            // the listener's name may contain "+" as well
+            let at = data.payload.lastIndexOf("+");
+            let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
             document.getElementById(data.el).addEventListener(split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
-- 
2.43.0


From 52e40819200369b98058162e46e614510ba97b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 17/31] fix: liveview client: changing an element's text keeps
 its children; support removing text

---
 puck_liveview/client/index.js | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 6ff5937..e3c50d6 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,3 +1,13 @@
+// sets the text of an element, which precedes its child elements, and leaves those alone
+function setText(el, text) {
+    let first = el.firstChild;
+    if (first && first.nodeType === Node.TEXT_NODE) {
+        first.nodeValue = text;
+    } else {
+        el.insertBefore(document.createTextNode(text), first);
+    }
+}
+
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
 ws.onmessage = (msg) => {
@@ -37,7 +47,9 @@ ws.onmessage = (msg) => {
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            document.getElementById(data["el"]).textContent = data["payload"];
+            setText(document.getElementById(data["el"]), data["payload"]);
+        } else if (data.ty === "removeText") {
+            setText(document.getElementById(data["el"]), "");
         } else if (data.ty === "attachListener") {
             // the listener's name may contain "+" as well
             let at = data.payload.lastIndexOf("+");
-- 
2.43.0


From 7aacd0b04048e1b1d0f923b37ddcd8b705b9f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 18/31] fix: liveview client: replacing an element keeps the
 listeners of its children

---
 puck_liveview/client/index.js | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index e3c50d6..8c23f67 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -8,6 +8,14 @@ function setText(el, text) {
     }
 }
 
+// puts a new element in the place of another; the children (with their listeners) move to it
+function replaceElement(old, new_el) {
+    while (old.firstChild) {
+        new_el.appendChild(old.firstChild);
+    }
+    old.parentNode.replaceChild(new_el, old);
+}
+
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
 ws.onmessage = (msg) => {
@@ -37,14 +45,13 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setTagName") {
             let old_tag = document.getElementById(data.el);
             let new_tag = document.createElement(data.payload);
-            new_tag.innerHTML = old_tag.innerHTML;
             for (var i = 0, l = old_tag.attributes.length; i < l; ++i) {
                 let name = old_tag.attributes.item(i).nodeName;
                 var value = old_tag.attributes.item(i).nodeValue;
 
                 new_tag.setAttribute(name, value);
             }
-            old_tag.parentNode.replaceChild(new_tag, old_tag);
+            replaceElement(old_tag, new_tag);
         } else if (data.ty === "setText") {
             console.log(data);
             setText(document.getElementById(data["el"]), data["payload"]);
@@ -79,8 +86,7 @@ ws.onmessage = (msg) => {
             })
         } else if (data.ty === "removeListeners") {
             let old = document.getElementById(data.el);
-            let new_el = old.cloneNode(true);
-            old.parentNode.replaceChild(new_el, old);
+            replaceElement(old, old.cloneNode(false));
         } else if (data.ty === "deleteEl") {
             let el = document.getElementById(data.el);
             console.log("deleting");
-- 
2.43.0


From c8f8698b98e2e648fb0213ed2943839dad77191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 19/31] fix: liveview diff: address elements by the id they
 have, reattach listeners to a renamed element

---
 puck_liveview/src/dom/element/diff/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 9c4660f..4b4ef32 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -57,7 +57,7 @@ impl Element {
             })
         }
 
-        cs.extend(self.generate_listeners());
+        cs.extend(self.generate_listeners(self.id()));
 
         if let Some(ref value) = self.text {
             cs.ops.push(Op {
@@ -116,7 +116,7 @@ impl Element {
     fn diff_name<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         if self.name != other.name {
             Changeset::from_op(Op {
-                id: other.id(),
+                id: self.id(),
                 instruction: Instruction::SetTagName {
                     name: Cow::Borrowed(&other.name),
                 },
@@ -178,25 +178,28 @@ impl Element {
     fn diff_listeners<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         let mut c = Changeset::empty();
 
-        if self.listeners == other.listeners {
+        // an element whose tag name changes is a new one in the browser, without listeners
+        if self.listeners == other.listeners && self.name == other.name {
         } else {
             c.ops.push(Op {
                 id: self.id(),
                 instruction: Instruction::RemoveListeners,
             });
-            c.ops.extend(other.generate_listeners())
+            // the element has its old id until all the other changes have been applied
+            c.ops.extend(other.generate_listeners(self.id()))
         }
 
         c
     }
 
-    /// Generates all the listeners which should be attached to a given `Element`.
-    fn generate_listeners(&'_ self) -> Changeset<'_> {
+    /// Generates all the listeners which should be attached to a given `Element`, which is known
+    /// to the client by the id provided.
+    fn generate_listeners(&'_ self, id: String) -> Changeset<'_> {
         let mut c = Changeset::empty();
 
         for listener in self.listeners.iter() {
             c.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::AttachListener {
                     name: listener.listener_name().to_string(),
                     on: listener.js_event().to_string(),
-- 
2.43.0


From 2e7b3772386d02e0cb6f237595783966ac72b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 20/31] fix: liveview diff: use keys only for changes the
 client can make, else go by position

---
 puck_liveview/src/dom/element/diff/mod.rs | 110 ++++++++--------------
 1 file changed, 40 insertions(+), 70 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 4b4ef32..6cbf3ff 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -211,10 +211,34 @@ impl Element {
     }
 
     /// Tries to find a child with the provided key. Returns `None` if a child cannot be found.
-    fn locate_child_by_key(&self, key: &str) -> Option<&Element> {
+    fn locate_child_by_key(&self, key: &str) -> Option<usize> {
         self.children
             .iter()
-            .find(|el| el.key.as_ref().unwrap().eq(key))
+            .position(|el| el.key.as_ref().unwrap().eq(key))
+    }
+
+    /// For each of the children of `other`, the index of our child (if there is one) which should
+    /// be changed into it.
+    fn pair_children(&self, other: &Element) -> Vec<Option<usize>> {
+        if self.children_are_all_keyed() && other.children_are_all_keyed() {
+            let pairs = other
+                .children
+                .iter()
+                .map(|el| self.locate_child_by_key(el.key.as_ref().unwrap()))
+                .collect::<Vec<_>>();
+
+            // new elements can only be appended, and elements cannot be moved
+            let kept = pairs.iter().take_while(|el| el.is_some()).count();
+            if pairs[..kept].windows(2).all(|el| el[0] < el[1])
+                && pairs[kept..].iter().all(|el| el.is_none())
+            {
+                return pairs;
+            }
+        }
+
+        (0..other.children.len())
+            .map(|i| Some(i).filter(|i| *i < self.children.len()))
+            .collect()
     }
 
     /// Compares the children of two nodes and emits instructions to update the old children to
@@ -222,80 +246,26 @@ impl Element {
     fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         let mut changeset = Changeset::empty();
 
-        if self.children_are_all_keyed() && other.children_are_all_keyed() {
-            // nodes which are shared between us and the other node
-            let mut unpaired = vec![];
-            for (i, their_child) in other.children.iter().enumerate() {
-                if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
-                {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                } else {
-                    unpaired.push(i);
-                }
-            }
+        let pairs = self.pair_children(other);
 
-            // generate all the new nodes (the ones that exist for them, but not for us)
-            let len = unpaired.len();
-            for each in unpaired {
+        // delete all the nodes that we have that they don't
+        for (i, our_child) in self.children.iter().enumerate() {
+            if !pairs.contains(&Some(i)) {
                 changeset.ops.push(Op {
-                    id: other.children[each].id(),
-                    instruction: if each == 0 {
-                        Instruction::InsertBefore {
-                            before_id: other.children[1].id(),
-                        }
-                    } else if each == len {
-                        Instruction::InsertAfter {
-                            after_id: other.children[each].id(),
-                        }
-                    } else {
-                        Instruction::InsertBefore {
-                            before_id: other.children[each - 1].id(),
-                        }
-                    },
+                    id: our_child.id(),
+                    instruction: Instruction::DeleteEl,
                 })
             }
+        }
 
-            // delete all the nodes that we have that they don't
-            for our_child in self.children.iter() {
-                if other
-                    .locate_child_by_key(our_child.key.as_ref().unwrap())
-                    .is_none()
-                {
-                    changeset.ops.push(Op {
-                        id: our_child.id(),
-                        instruction: Instruction::DeleteEl,
-                    })
-                }
-            }
-        } else {
-            let self_len = self.children.len();
-            let other_len = other.children.len();
-
-            #[allow(clippy::comparison_chain)]
-            if self_len == other_len {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-                // we are done
-            } else if self_len > other_len {
-                for el in self.children[other_len..].iter() {
-                    changeset.ops.push(Op {
-                        id: el.id(),
-                        instruction: Instruction::DeleteEl,
-                    })
-                }
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
+        for (their_child, pair) in other.children.iter().zip(pairs) {
+            changeset.ops.extend(if let Some(i) = pair {
+                // nodes which are shared between us and the other node
+                self.children[i].diff(Some(their_child))
             } else {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-                // add all the elements that they have, but we don't
-                for el in other.children[self_len..].iter() {
-                    changeset.ops.extend(el.create_from_scratch(Some(self)));
-                }
-            }
+                // nodes that they have, but we don't
+                their_child.create_from_scratch(Some(self))
+            })
         }
 
         changeset
-- 
2.43.0


From 21c942531ecc8b0357a2b3deb257e30217a8cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 21/31] fix: liveview: ids of elements on the page stay unique
 and fixed across updates

---
 puck_liveview/src/component/mod.rs        | 17 ++++++++++++++++-
 puck_liveview/src/dom/element/diff/mod.rs | 15 +++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..1b22ca5 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -14,6 +14,7 @@ use crate::{
         event::{ClickEvent, InputEvent, SubmitEvent},
         listener::Listener,
     },
+    html::id::IdGen,
 };
 
 /// todo: documentation
@@ -106,6 +107,9 @@ fn main_loop<COMPONENT, DATA, INPUT>(
 
     let (mut old_dom, mut old_listeners) = component.render();
 
+    let mut id_gen = IdGen::new();
+    old_dom.adopt_ids(None, &mut id_gen);
+
     let instructions = old_dom.diff(None);
 
     let payload = serde_json::to_string(&InstructionSerializer(instructions)).unwrap();
@@ -129,6 +133,7 @@ fn main_loop<COMPONENT, DATA, INPUT>(
                                         &mut old_dom,
                                         &stream,
                                         &mut old_listeners,
+                                        &mut id_gen,
                                     );
                                 }
                                 Listener::Submit { call } => {
@@ -139,6 +144,7 @@ fn main_loop<COMPONENT, DATA, INPUT>(
                                         &mut old_dom,
                                         &stream,
                                         &mut old_listeners,
+                                        &mut id_gen,
                                     );
                                 }
                                 Listener::Input { call } => {
@@ -152,6 +158,7 @@ fn main_loop<COMPONENT, DATA, INPUT>(
                                             &mut old_dom,
                                             &stream,
                                             &mut old_listeners,
+                                            &mut id_gen,
                                         );
                                     }
                                 }
@@ -176,7 +183,13 @@ fn main_loop<COMPONENT, DATA, INPUT>(
             WsOrInput::Input(input) => {
                 component.update(input, &context);
 
-                perform_diff(&component, &mut old_dom, &stream, &mut old_listeners);
+                perform_diff(
+                    &component,
+                    &mut old_dom,
+                    &stream,
+                    &mut old_listeners,
+                    &mut id_gen,
+                );
             }
             WsOrInput::WhoAmI(_) => {
                 unreachable!()
@@ -190,12 +203,14 @@ fn perform_diff<COMPONENT, DATA, INPUT>(
     old_dom: &mut Element,
     stream: &WebSocket,
     old_listeners: &mut HashMap<String, Listener<INPUT>>,
+    id_gen: &mut IdGen,
 ) where
     DATA: serde::Serialize + serde::de::DeserializeOwned,
     INPUT: serde::Serialize + serde::de::DeserializeOwned,
     COMPONENT: Component<DATA, INPUT>,
 {
     let (mut new_dom, mut new_listeners) = component.render();
+    new_dom.adopt_ids(Some(old_dom), id_gen);
     let instructions = old_dom.diff(Some(&new_dom));
     let _ = stream.send(Message::Text(
         serde_json::to_string(&InstructionSerializer(instructions)).unwrap(),
diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 6cbf3ff..f43e674 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -9,6 +9,7 @@ use std::borrow::Cow;
 use self::changeset::{Changeset, Instruction, Op};
 
 use super::Element;
+use crate::html::id::IdGen;
 
 impl Element {
     /// Compare two root nodes and produce a set of instructions which can be followed to produce
@@ -241,6 +242,20 @@ impl Element {
             .collect()
     }
 
+    /// Gives this element and its children the ids of the elements of `old` which will be changed
+    /// into them, and new ids if there are none. No two elements on the page share an id then, not
+    /// even while the changes are made.
+    pub(crate) fn adopt_ids(&mut self, old: Option<&Element>, id_gen: &mut IdGen) {
+        let pairs = old.map(|old| old.pair_children(self)).unwrap_or_default();
+
+        self.id = old.map_or_else(|| id_gen.new_id(), |old| old.id);
+
+        for (i, child) in self.children.iter_mut().enumerate() {
+            let pair = old.and_then(|old| pairs[i].map(|pair| &old.children[pair]));
+            child.adopt_ids(pair, id_gen);
+        }
+    }
+
     /// Compares the children of two nodes and emits instructions to update the old children to
     /// assume the form of the new children.
     fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
-- 
2.43.0


From 2db6c8d25fa3cb8aaab885093c474156d2b297c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 22/31] fix: liveview: stop reading from a connection which has
 been closed

---
 puck_liveview/src/component/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 1b22ca5..09ecb44 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -69,11 +69,12 @@ where
 
             Process::spawn(
                 (stream, process.clone()),
-                |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                |(mut websocket, process), _: Mailbox<()>| {
+                    while let Some(msg) = websocket.next() {
+                        let closed = matches!(msg, Err(NextMessageError::ConnectionClosed));
+                        process.send(WsOrInput::Ws(msg));
+                        if closed {
+                            break;
                         }
                     }
                 },
-- 
2.43.0


From b8449e41bd1de5b0973f830e648c4a90c64b42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 23/31] fix: liveview: drop the component of a browser which
 goes before the first paint

---
 puck_liveview/src/component/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 09ecb44..4570fc5 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -115,7 +115,8 @@ fn main_loop<COMPONENT, DATA, INPUT>(
 
     let payload = serde_json::to_string(&InstructionSerializer(instructions)).unwrap();
 
-    stream.send(Message::Text(payload)).unwrap();
+    // if the browser has gone already, this process is told so below
+    let _ = stream.send(Message::Text(payload));
 
     loop {
         let msg = mailbox.receive();
-- 
2.43.0


From 147d20d4e8603058361a7c041f086c649a7b6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:45 +0000
Subject: [PATCH 24/31] fix: don't allocate what a Content-Length claims before
 any of it has arrived

---
 puck/src/body/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..b09dcbc 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,8 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        // the length is whatever the other side claims: allocate as the data arrives
+        let mut result = String::new();
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From 1349cf6f88a247caeb20869c0cea32fd85d11d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:20 +0000
Subject: [PATCH 25/31] fix: reject requests whose headers a bare line feed
 ends early

---
 puck/src/request/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index b07151a..c040750 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -68,7 +68,10 @@ impl Request {
             }
         }
 
-        let _ = req.parse(&buf)?;
+        // an empty line which ends with a bare line feed ends the headers for the parser, but not above
+        if req.parse(&buf)? != httparse::Status::Complete(buf.len()) {
+            return Err(RequestParseError::CouldNotParse(httparse::Error::NewLine));
+        }
         let method = Method::new_from_str(req.method.ok_or(RequestParseError::MissingMethod)?);
         let headers = {
             let mut map = HashMap::new();
-- 
2.43.0


From 6147180555dec6c104aeb379994140654898853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:21 +0000
Subject: [PATCH 26/31] fix: reject responses whose headers a bare line feed
 ends early

---
 puck/src/response/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 5ed91c1..e744523 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,10 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf)?;
+        // an empty line which ends with a bare line feed ends the headers for the parser, but not above
+        if res.parse(&buf)? != httparse::Status::Complete(buf.len()) {
+            return Err(ParseResponseError::CouldNotParse(httparse::Error::NewLine));
+        }
 
         let headers = {
             let mut map = HashMap::new();
-- 
2.43.0


From cd6916c8433e5e2df77b3e4a7bc43bc3eb07d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 27/31] fix: recognise the HEAD method

---
 puck/src/request/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index c040750..4772224 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -238,6 +238,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
-- 
2.43.0


From 146ccb754d4c35bcc257fdcde45248638c6684f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 28/31] fix: recognise the scheme of a request's target
 regardless of case

---
 puck/src/request/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 4772224..9916255 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -96,7 +96,10 @@ impl Request {
         let url =
             if let Some((_, host)) = ordered.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
-                if url.starts_with("http://") || url.starts_with("https://") {
+                let scheme = url.split("://").next().unwrap_or_default();
+                if url.len() > scheme.len()
+                    && (scheme.eq_ignore_ascii_case("http") || scheme.eq_ignore_ascii_case("https"))
+                {
                     Url::parse(url)
                 } else if url.starts_with('/') {
                     Url::parse(&format!("http://{}{}", host, url))
-- 
2.43.0


From 49f37b4f669b2bc587a1e1a88236a82f6aa85c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:57 +0000
Subject: [PATCH 29/31] fix: reject requests whose Host header is not a host

---
 puck/src/request/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 9916255..5f79475 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -101,6 +101,9 @@ impl Request {
                     && (scheme.eq_ignore_ascii_case("http") || scheme.eq_ignore_ascii_case("https"))
                 {
                     Url::parse(url)
+                } else if host.is_empty() || host.contains(&['/', '\\', '?', '#', '@', '\t'][..]) {
+                    // this is not a host, and would change what the rest of the url means
+                    return Err(RequestParseError::InvalidUrl);
                 } else if url.starts_with('/') {
                     Url::parse(&format!("http://{}{}", host, url))
                 } else if req.method.unwrap().eq_ignore_ascii_case("connect") {
-- 
2.43.0


From 57eff0d4fc94a335eea412ee0742caf49f1c9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 30/31] fix: keep reasons which are not ASCII when parsing
 responses

---
 puck/src/response/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index e744523..67e0e16 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -101,10 +101,18 @@ impl Response {
             return Err(ParseResponseError::MissingStatusCode);
         };
 
-        let reason = if let Some(reason) = res.reason {
-            reason.to_string()
-        } else {
-            return Err(ParseResponseError::MissingReason);
+        let reason = match res.reason {
+            // the parser gives this also for reasons which are not ASCII
+            Some("") => {
+                let line = buf
+                    .split(|byte| matches!(byte, b'\r' | b'\n'))
+                    .find(|line| !line.is_empty())
+                    .unwrap_or_default();
+                let reason = line.get("HTTP/1.1 200 ".len()..).unwrap_or_default();
+                std::str::from_utf8(reason).unwrap_or_default().to_string()
+            }
+            Some(reason) => reason.to_string(),
+            None => return Err(ParseResponseError::MissingReason),
         };
 
         let body = Body::from_reader(
-- 
2.43.0


From dc6ce23183a221ab4af6eb19442902dc862a92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:27 +0000
Subject: [PATCH 31/31] fix: wrap select and noscript nodes as the elements
 they are

---
 puck_liveview/src/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index b064502..1a31400 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -145,7 +145,7 @@ impl WrappedBodyNode {
                 let select = select.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("select"),
                     attributes: select.attrs,
                     listeners: self.listeners,
                     children: self
@@ -162,7 +162,7 @@ impl WrappedBodyNode {
                 let noscript = noscript.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("noscript"),
                     attributes: HashMap::new(),
                     listeners: vec![],
                     children: vec![],
-- 
2.43.0

