From e04f2b4e1380d9f5f005333ddb43f7910fcd5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 01/39] fix: never request a block beyond the end of the piece

With a piece length that is not a multiple of 16 KiB the last block of a piece
reached into the next piece, so the piece could never be verified.
---
 src/peer/download/block.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index ccab021..f5e841b 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -13,9 +13,10 @@ pub fn next_block(
 ) -> impl FnMut(&mut Peer, usize) {
     move |peer: &mut Peer, block_index: usize| {
         let block_offset = block_index * block_size;
+        let piece_end = cmp::min(total_length, (piece_index + 1) * piece_length);
         let block_length = get_block_size(
             block_offset,
-            total_length,
+            piece_end,
             piece_index * piece_length,
             block_size,
         );
@@ -33,9 +34,9 @@ pub fn message_filter() -> fn(&Message) -> bool {
 
 fn get_block_size(
     block_offset: usize,
-    torrent_length: usize,
+    piece_end: usize,
     piece_offset: usize,
     block_size: usize,
 ) -> usize {
-    cmp::min(torrent_length - (block_offset + piece_offset), block_size)
+    cmp::min(piece_end - (block_offset + piece_offset), block_size)
 }
-- 
2.43.0


From 57f227aba2e49df072041d88e62cc824c8ced607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 02/39] fix: read handshakes and message headers that arrive in
 several segments

A short read of the handshake or of the length prefix was taken for the
whole, which lost the position in the stream.
---
 src/peer/stream.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index cf64c2d..afbef38 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -96,6 +96,19 @@ fn peek_and_read(stream: &mut StreamInterface, body: &mut [u8], length: usize) -
     stream.peek(body).unwrap_or(0) == length && stream.read(body).unwrap_or(0) == length
 }
 
+// The bytes of a handshake or of a message header may arrive in several segments: nothing is taken from
+// the stream until all of them are there.
+fn wait_and_read(stream: &mut StreamInterface, buffer: &mut [u8]) -> bool {
+    let length = buffer.len();
+    for retry in 1..40 {
+        if peek_and_read(stream, buffer, length) {
+            return true;
+        }
+        thread::sleep(time::Duration::from_millis(5 * retry));
+    }
+    false
+}
+
 // Here we should try to return a Result to signal the presence of errors
 pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
     if stream
@@ -110,21 +123,21 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
     }
 
     let mut buffer: [u8; 68] = [0x00; 68];
-    if stream.peek(&mut buffer).ok() == Some(68) && buffer[0] == 0x13 {
-        if stream.read(&mut buffer).is_err() {
+    if stream.peek(&mut buffer).is_ok() && buffer[0] == 0x13 {
+        if !wait_and_read(stream, &mut buffer) {
             return None;
         }
         return Some((buffer.to_vec(), 19, 68));
     }
 
     let mut buffer: [u8; 4] = [0x00; 4];
-    if stream.read(&mut buffer).is_err() {
+    if !wait_and_read(stream, &mut buffer) {
         return None;
     }
     let mut length = u32::from_be_bytes(buffer);
 
     let mut buffer: [u8; 1] = [0x00; 1];
-    if stream.read(&mut buffer).is_err() {
+    if !wait_and_read(stream, &mut buffer) {
         return None;
     }
     let id = buffer[0];
-- 
2.43.0


From e492dd7d63db4034091e7f9b3609dbf14d180932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 03/39] fix: a keep-alive is four bytes long

The first byte of the message after a keep-alive was taken for its id, and
the rest of the stream was misread.
---
 src/peer/stream.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index afbef38..3940f2d 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -8,6 +8,9 @@ use log::error;
 
 use crate::common::mock_stream::MockStream;
 
+// A keep-alive carries no id: the id of no message stands for it.
+const KEEP_ALIVE_ID: u8 = u8::MAX;
+
 #[derive(Debug)]
 pub enum StreamInterface {
     #[allow(dead_code)]
@@ -135,6 +138,9 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
         return None;
     }
     let mut length = u32::from_be_bytes(buffer);
+    if length == 0 {
+        return Some((vec![], KEEP_ALIVE_ID, 0));
+    }
 
     let mut buffer: [u8; 1] = [0x00; 1];
     if !wait_and_read(stream, &mut buffer) {
@@ -142,11 +148,7 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
     }
     let id = buffer[0];
 
-    if length == 0 {
-        return Some((vec![], id, 0));
-    } else {
-        length -= 1
-    }
+    length -= 1;
 
     let mut body = vec![0; length as usize];
     for retry in 1..40 {
-- 
2.43.0


From 11ff32532cfb4c72a1718b3446be25e0c68769a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 04/39] fix: reject messages too short for their kind

A piece, request, extension or handshake message with a body shorter than
its fixed part made the worker panic: the piece and the worker were lost.
---
 src/messages/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/messages/mod.rs b/src/messages/mod.rs
index 8f21009..198b9b9 100644
--- a/src/messages/mod.rs
+++ b/src/messages/mod.rs
@@ -34,6 +34,16 @@ impl Message {
     // TODO: Maybe we could promote body to use a ContentType as parameter type, even though this function is used
     // during the read of a message.
     pub fn new_raw(body: Vec<u8>, length: u32, id: u8) -> Result<Message, &'static str> {
+        let minimum_length = match id {
+            7 | 6 => 8,
+            20 => 1,
+            19 => 68,
+            _ => 0,
+        };
+        if body.len() < minimum_length {
+            return Err("Message too short");
+        }
+
         let content = match id {
             2 => ContentType::Interested(InterestedMessage::from_bytes()),
             5 => ContentType::Bitfield(BitfieldMessage::from_bytes(&body)),
-- 
2.43.0


From 835e82ebf4cab74d790db4b2f94860815dd8df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:23 +0000
Subject: [PATCH 05/39] fix: the bencode decoder fails on malformed content
 instead of panicking

Truncated content, string lengths beyond the end and a missing delimiter
panicked, a list with anything that is no value looped forever while
growing, and deep nesting overflowed the stack and killed the process.
---
 src/bencode/decode.rs | 62 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index be59059..e09b338 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -5,8 +5,12 @@ use log::error;
 
 use crate::bencode::metainfo::Metainfo;
 
+// Nested deeper than this no value is accepted: the decoder is recursive.
+const MAX_DEPTH: usize = 256;
+
 pub struct Decoder {
     current: usize,
+    depth: usize,
     contents: Vec<u8>,
 }
 
@@ -20,12 +24,17 @@ pub enum DecoderError {
     NoStringFound(usize),
     #[error("Bad string from bytes conversion at position: {0}")]
     BadStringFromBytes(usize),
+    #[error("Unexpected byte or end of content at position: {0}")]
+    BadContent(usize),
+    #[error("Content nested too deeply at position: {0}")]
+    TooDeep(usize),
 }
 
 impl Decoder {
     pub fn init(source: Vec<u8>) -> Decoder {
         Decoder {
             current: 0,
+            depth: 0,
             contents: source,
         }
     }
@@ -35,13 +44,40 @@ impl Decoder {
         self.current
     }
 
-    fn get_current_byte(&self) -> u8 {
-        self.contents[self.current]
+    fn get_current_byte(&self) -> Result<u8, DecoderError> {
+        self.contents
+            .get(self.current)
+            .copied()
+            .ok_or(DecoderError::BadContent(self.current))
+    }
+
+    fn expect_byte(&mut self, byte: u8) -> Result<(), DecoderError> {
+        if self.get_current_byte()? != byte {
+            return Err(DecoderError::BadContent(self.current));
+        }
+        self.advance();
+        Ok(())
+    }
+
+    // A value inside a list or a dictionary: there has to be one.
+    fn decode_nested(&mut self) -> Result<Metainfo, DecoderError> {
+        if self.depth == MAX_DEPTH {
+            return Err(DecoderError::TooDeep(self.current));
+        }
+
+        self.depth += 1;
+        let value = self.decode();
+        self.depth -= 1;
+
+        match value? {
+            Metainfo::Nothing() => Err(DecoderError::BadContent(self.current)),
+            value => Ok(value),
+        }
     }
 
     fn get_consecutive_digits(&mut self) -> Result<usize, DecoderError> {
         let start = self.current;
-        while self.get_current_byte().is_ascii_digit() {
+        while self.get_current_byte()?.is_ascii_digit() {
             self.advance();
         }
         let end = self.current;
@@ -73,17 +109,17 @@ impl Decoder {
         self.advance();
         let integer: usize = self.get_consecutive_digits()?;
 
-        match self.contents.get(self.current) {
-            Some(b'e') => self.advance(),
-            _ => self.advance(),
-        };
+        self.expect_byte(b'e')?;
         Ok(Metainfo::Integer(integer))
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
-        // TODO: Mettere check semicolon
-        self.advance();
+        self.expect_byte(b':')?;
+
+        if integer > self.contents.len() - self.current {
+            return Err(DecoderError::BadContent(self.current));
+        }
 
         let b = &self.contents[self.current..self.current + integer];
         self.current += integer;
@@ -94,8 +130,8 @@ impl Decoder {
         self.advance();
         let mut list: Vec<Metainfo> = Vec::new();
 
-        while self.get_current_byte() != b'e' {
-            list.push(self.decode()?);
+        while self.get_current_byte()? != b'e' {
+            list.push(self.decode_nested()?);
         }
 
         self.advance();
@@ -106,7 +142,7 @@ impl Decoder {
         self.advance();
 
         let mut dictionary = HashMap::new();
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             let key = if let Metainfo::String(raw_key) = self.parse_string()? {
                 str::from_utf8(&raw_key)
                     .map_err(|_| DecoderError::BadStringFromBytes(self.current))?
@@ -114,7 +150,7 @@ impl Decoder {
             } else {
                 return Err(DecoderError::NoStringFound(self.current));
             };
-            let value = self.decode()?;
+            let value = self.decode_nested()?;
             dictionary.insert(key, value);
         }
 
-- 
2.43.0


From 9d5245d7ec71fa00ab9781a030d79e930e636f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:24 +0000
Subject: [PATCH 06/39] fix: decode the empty string

"0:" was not recognized as a string anywhere but as a dictionary key.
---
 src/bencode/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index e09b338..f24f5b4 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -164,7 +164,7 @@ impl Decoder {
             Some(b'i') => self.parse_integer()?,
             Some(b'l') => self.parse_list()?,
             Some(b'd') => self.parse_dictionary()?,
-            Some(b'1'..=b'9') => self.parse_string()?,
+            Some(b'0'..=b'9') => self.parse_string()?,
             Some(_) => Metainfo::Nothing(),
         };
 
-- 
2.43.0


From cb4bf60b09282fd6bcc6e87747c9d4cb484b71f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 07/39] fix: decode negative integers

A message with a negative integer anywhere, as in the extension handshakes
of some clients, was an error as a whole.
---
 src/bencode/decode.rs   | 14 ++++++++++++++
 src/bencode/metainfo.rs |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index f24f5b4..d8ade8d 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -107,12 +107,26 @@ impl Decoder {
 
     fn parse_integer(&mut self) -> Result<Metainfo, DecoderError> {
         self.advance();
+        if self.get_current_byte()? == b'-' {
+            return self.parse_negative_integer();
+        }
         let integer: usize = self.get_consecutive_digits()?;
 
         self.expect_byte(b'e')?;
         Ok(Metainfo::Integer(integer))
     }
 
+    fn parse_negative_integer(&mut self) -> Result<Metainfo, DecoderError> {
+        self.advance();
+        let integer: usize = self.get_consecutive_digits()?;
+
+        self.expect_byte(b'e')?;
+        0_i64
+            .checked_sub_unsigned(integer as u64)
+            .map(Metainfo::NegativeInteger)
+            .ok_or(DecoderError::BadNumberDecode(format!("-{integer}")))
+    }
+
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
         self.expect_byte(b':')?;
diff --git a/src/bencode/metainfo.rs b/src/bencode/metainfo.rs
index 1f2eb18..6f6b60e 100644
--- a/src/bencode/metainfo.rs
+++ b/src/bencode/metainfo.rs
@@ -5,6 +5,7 @@ use std::{fmt, str};
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub enum Metainfo {
     Integer(usize),
+    NegativeInteger(i64),
     List(Vec<Metainfo>),
     String(Vec<u8>),
     Dictionary(HashMap<String, Metainfo>),
@@ -19,7 +20,7 @@ const METAINFO_DICTIONARY: &str = "Dictionary";
 impl fmt::Display for Metainfo {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
-            Metainfo::Integer(_) => write!(f, "{METAINFO_INTEGER}"),
+            Metainfo::Integer(_) | Metainfo::NegativeInteger(_) => write!(f, "{METAINFO_INTEGER}"),
             Metainfo::List(_) => write!(f, "{METAINFO_LIST}"),
             Metainfo::String(_) => write!(f, "{METAINFO_STRING}"),
             Metainfo::Dictionary(_) => write!(f, "{METAINFO_DICTIONARY}"),
-- 
2.43.0


From 4a9ab0d213c7d13fef0837945b6a74a5e80a33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 08/39] fix: bencoded string lengths count bytes

The length of a string with non-ASCII characters counted characters, so the
encoding was broken and the info hash of such a torrent wrong.
---
 src/bencode/encode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bencode/encode.rs b/src/bencode/encode.rs
index 4ad8eb4..89e741c 100644
--- a/src/bencode/encode.rs
+++ b/src/bencode/encode.rs
@@ -6,17 +6,13 @@ pub trait Encode {
 
 impl Encode for String {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
-            .as_bytes()
-            .to_vec()
+        format!("{}:{}", self.len(), self).as_bytes().to_vec()
     }
 }
 
 impl Encode for &str {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
-            .as_bytes()
-            .to_vec()
+        format!("{}:{}", self.len(), self).as_bytes().to_vec()
     }
 }
 
-- 
2.43.0


From f415f7b67811d06cee0129cb11267e329ff1a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 09/39] fix: verify the metadata received from a peer

Whatever a peer sent as metadata was used and saved, whether or not it was
the torrent the magnet link asks for.
---
 src/peer/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 6a251be..66e3480 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,4 +1,5 @@
 use log::{debug, error, info};
+use sha1::{Digest, Sha1};
 
 use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
@@ -19,6 +20,8 @@ pub enum PeerManagerError {
     PieceDownloadFailure(String),
     #[error("Unsuccessfull piece verification")]
     PieceVerificationFailure(),
+    #[error("Unsuccessfull metadata verification")]
+    MetadataVerificationFailure(),
     #[error(transparent)]
     Stream(#[from] StreamError),
     #[error(transparent)]
@@ -33,6 +36,9 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
 
     init_peer(&mut peer)?;
     let info = Downloadable::Info.download(&mut peer)?;
+    if Sha1::digest(&info).as_slice() != info_hash {
+        return Err(PeerManagerError::MetadataVerificationFailure());
+    }
 
     let info = Info::from_bytes(info)?;
     Ok(info)
-- 
2.43.0


From a7fcada50eaa8e852ca517210426f75b2fd5d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 10/39] fix: a peer without ut_metadata is no reason to panic

Asking such a peer for metadata panicked the torrent's actor.
---
 src/peer/download/info.rs | 3 +++
 src/peer/mod.rs           | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 37b58bb..a36fb62 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -5,6 +5,9 @@ use crate::{
 
 pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
     |peer: &mut Peer, piece_index| {
+        if !peer.has_extension("ut_metadata") {
+            return;
+        }
         let metadata_id = peer.get_extension_id_by_name("ut_metadata");
         peer.send_message(new_metadata(metadata_id, piece_index))
     }
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 98a032e..865915f 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -69,6 +69,10 @@ impl Peer {
         self.metadata_size
     }
 
+    pub fn has_extension(&self, name: &str) -> bool {
+        self.extensions.contains_key(name)
+    }
+
     pub fn get_extension_id_by_name(&self, name: &str) -> u8 {
         *self.extensions.get(name).unwrap()
     }
-- 
2.43.0


From bc34a42a87bee2e145185be0064071eba5dc946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 11/39] fix: bound the metadata size a peer may announce

All parts are collected before anything is verified: a peer announcing an
absurd size could feed the client until its memory was exhausted.
---
 src/peer/manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 66e3480..9e8d931 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -8,6 +8,8 @@ use crate::torrent::info::{Info, InfoError};
 use super::download::{Downloadable, DownloadableError};
 use super::stream::{StreamError, StreamInterface};
 
+const MAX_METADATA_SIZE: usize = 64 * 1024 * 1024;
+
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum PeerManagerError {
     #[error("Handshake error with peer")]
@@ -35,6 +37,9 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
     let mut peer = Peer::new(stream, info_hash);
 
     init_peer(&mut peer)?;
+    if peer.get_metadata_size() > MAX_METADATA_SIZE {
+        return Err(PeerManagerError::HandshakeMetadata());
+    }
     let info = Downloadable::Info.download(&mut peer)?;
     if Sha1::digest(&info).as_slice() != info_hash {
         return Err(PeerManagerError::MetadataVerificationFailure());
-- 
2.43.0


From aa350f66665e2e54ed9c886d35eaf330378573d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 12/39] fix: metadata with a malformed file entry is an error

The entry was left out, and all files after it were written at the wrong
place.
---
 src/torrent/info.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e9c3a3..94554ac 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -8,7 +8,7 @@ use log::{error, info};
 use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::encode::{encode_dict_entry, Encode};
 use crate::bencode::metainfo::{Metainfo, MetainfoError};
-use crate::torrent::file::File;
+use crate::torrent::file::{File, FileError};
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct Info {
@@ -25,6 +25,10 @@ pub enum InfoError {
     MetainfoError(#[from] MetainfoError),
     #[error("Error during metainfo decoding")]
     DecoderError(#[from] DecoderError),
+    #[error("Error in the file list")]
+    FileError(#[from] FileError),
+    #[error("Inconsistent lengths")]
+    InconsistentLengths(),
     #[error("No file length specified")]
     NoFileLenght(),
     #[error("No info file found at {0}")]
@@ -46,7 +50,8 @@ impl Info {
         let files = a
             .get_list_from_dict("files")
             .ok()
-            .map(|elements| elements.iter().flat_map(File::from_metainfo).collect());
+            .map(|elements| elements.iter().map(File::from_metainfo).collect())
+            .transpose()?;
 
         Ok(Info {
             name,
-- 
2.43.0


From 206c48a02bef9e8c7fc9c331f1cdafe57af0b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 13/39] fix: reject metadata whose lengths do not fit together

A piece length of zero, neither files nor a length, overflowing lengths or
missing piece hashes panicked an actor.
---
 src/peer/manager.rs |  1 +
 src/torrent/info.rs | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 9e8d931..c014087 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -46,6 +46,7 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
     }
 
     let info = Info::from_bytes(info)?;
+    info.verify_lengths()?;
     Ok(info)
 }
 
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 94554ac..c554333 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -94,6 +94,26 @@ impl Info {
         Ok(())
     }
 
+    // The lengths of the files, the piece length and the number of hashes have to fit together.
+    pub fn verify_lengths(&self) -> Result<(), InfoError> {
+        let total_length = self
+            .get_files()?
+            .iter()
+            .try_fold(0_usize, |total, file| total.checked_add(file.get_length()));
+
+        match total_length {
+            Some(length)
+                if (1..=u32::MAX as usize).contains(&self.piece_length)
+                    && length <= i64::MAX as usize
+                    && self.pieces.len() % 20 == 0
+                    && self.pieces.len() / 20 == length.div_ceil(self.piece_length) =>
+            {
+                Ok(())
+            }
+            _ => Err(InfoError::InconsistentLengths()),
+        }
+    }
+
     pub fn get_piece(&self, index: usize) -> &[u8] {
         self.pieces
             .chunks_exact(20)
-- 
2.43.0


From 7e6a9f419b90aa27ac9edca0980577bfbe8eaac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 14/39] fix: metadata that cannot be read back or saved is
 fetched again

After a crash while saving, the truncated file panicked every later
download of that torrent; so did a directory that cannot be created.
---
 src/actors/torrent.rs | 2 +-
 src/torrent/info.rs   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9100ec4..87d5ebe 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -156,7 +156,7 @@ impl Handler<PeerFound> for TorrentActor {
 fn collect_info(info_hash: &[u8], endpoint: &str) -> Option<Info> {
     let filename = urlencoding::encode_binary(info_hash).into_owned();
     let file_path = format!("./downloads/{filename}");
-    std::fs::create_dir_all("./downloads").unwrap();
+    let _ = std::fs::create_dir_all("./downloads");
 
     if let Ok(info) = Info::from_file(&file_path) {
         return Some(info);
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index c554333..7f402e7 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -74,7 +74,9 @@ impl Info {
                 return Err(InfoError::NoInfoFile(file_path.to_owned()));
             }
 
-            let info: Info = serde_json::from_str(&info_buffer).unwrap();
+            let info: Info = serde_json::from_str(&info_buffer)
+                .map_err(|_| InfoError::NoInfoFile(file_path.to_owned()))?;
+            info.verify_lengths()?;
 
             return Ok(info);
         }
@@ -83,7 +85,9 @@ impl Info {
     }
 
     pub fn save(&self, file_path: &str) -> Result<(), InfoError> {
-        if let Err(err) = serde_json::to_writer(&std::fs::File::create(file_path).unwrap(), self) {
+        let info_file = std::fs::File::create(file_path)
+            .map_err(|_| InfoError::NoInfoFile(file_path.to_owned()))?;
+        if let Err(err) = serde_json::to_writer(&info_file, self) {
             error!(
                 "Caught error {:?} while saving the info to file {:?}",
                 err, file_path
-- 
2.43.0


From 1842e4317a5a6f7e4706c7bf82b4363508941379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 15/39] fix: ask peers for the info hash of the magnet link

It was computed from the metadata entries the client knows, which is
another hash for any torrent with further ones (such as private).
---
 src/actors/connection.rs | 7 ++++++-
 src/actors/messages.rs   | 1 +
 src/actors/torrent.rs    | 3 +++
 src/peer/manager.rs      | 3 ++-
 src/torrent/info.rs      | 1 +
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/actors/connection.rs b/src/actors/connection.rs
index 23ecc05..8e28c6a 100644
--- a/src/actors/connection.rs
+++ b/src/actors/connection.rs
@@ -22,7 +22,12 @@ impl Handler<PieceRequested> for ConnectionActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceRequested, _ctx: &mut Self::Context) -> Self::Result {
-        match download(msg.endpoint.clone(), &msg.info, msg.piece_idx) {
+        match download(
+            msg.endpoint.clone(),
+            &msg.info,
+            &msg.info_hash,
+            msg.piece_idx,
+        ) {
             Ok(piece) => {
                 msg.torrent_actor.do_send(PieceDownloadSuccessfull {
                     endpoint: msg.endpoint.clone(),
diff --git a/src/actors/messages.rs b/src/actors/messages.rs
index 67f2a35..727879d 100644
--- a/src/actors/messages.rs
+++ b/src/actors/messages.rs
@@ -54,6 +54,7 @@ pub struct PieceReady {
 pub struct PieceRequested {
     pub endpoint: String,
     pub info: Info,
+    pub info_hash: Vec<u8>,
     pub piece_idx: usize,
     pub torrent_actor: Addr<TorrentActor>,
 }
diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 87d5ebe..3611c61 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -71,6 +71,7 @@ impl Handler<PieceDownloadSuccessfull> for TorrentActor {
             let msg = PieceRequested {
                 piece_idx,
                 info: self.info.as_ref().unwrap().clone(),
+                info_hash: self.info_hash.clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
             };
@@ -99,6 +100,7 @@ impl Handler<PieceDownloadFailed> for TorrentActor {
             let msg = PieceRequested {
                 piece_idx,
                 info: self.info.as_ref().unwrap().clone(),
+                info_hash: self.info_hash.clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
             };
@@ -137,6 +139,7 @@ impl Handler<PeerFound> for TorrentActor {
                             let msg = PieceRequested {
                                 piece_idx,
                                 info: info.clone(),
+                                info_hash: self.info_hash.clone(),
                                 endpoint,
                                 torrent_actor: ctx.address(),
                             };
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index c014087..a3f1781 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -69,10 +69,11 @@ impl Context {
 pub fn download(
     endpoint: String,
     info: &Info,
+    info_hash: &[u8],
     piece_idx: usize,
 ) -> Result<Vec<u8>, PeerManagerError> {
     let stream = StreamInterface::connect(&endpoint, false)?;
-    let mut peer = Peer::new(stream, &info.compute_info_hash());
+    let mut peer = Peer::new(stream, info_hash);
     init_peer(&mut peer)?;
 
     let piece_length = info.get_piece_length();
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 7f402e7..91d06e0 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -151,6 +151,7 @@ impl Info {
         }
     }
 
+    #[allow(dead_code)]
     pub fn compute_info_hash(&self) -> Vec<u8> {
         Sha1::digest(self.encode()).as_slice().to_owned()
     }
-- 
2.43.0


From 6ee9f65d41ddb76a2ffe4dfa7826788ad1a98f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 16/39] fix: any number of messages may precede the unchoke

A peer that announces its pieces one by one sends more than ten messages
before it unchokes: every attempt on it failed.
---
 src/peer/manager.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index a3f1781..55e2660 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,3 +1,5 @@
+use std::time::{Duration, Instant};
+
 use log::{debug, error, info};
 use sha1::{Digest, Sha1};
 
@@ -9,6 +11,7 @@ use super::download::{Downloadable, DownloadableError};
 use super::stream::{StreamError, StreamInterface};
 
 const MAX_METADATA_SIZE: usize = 64 * 1024 * 1024;
+const MAX_INIT_TIME: Duration = Duration::from_secs(10);
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum PeerManagerError {
@@ -110,10 +113,15 @@ fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_metadata_handshake_request()
         .map_err(|_| PeerManagerError::HandshakeMetadata())?;
 
-    for _ in 0..10 {
+    let start = Instant::now();
+    let mut idle_count = 0;
+    while idle_count < 10 && start.elapsed() < MAX_INIT_TIME {
         match peer.read_message() {
             Some(message) => peer.apply_message(&message),
-            None => debug!("No message available to read"),
+            None => {
+                idle_count += 1;
+                debug!("No message available to read")
+            }
         }
 
         if peer.is_ready() {
-- 
2.43.0


From caee3d6df5ad64769749dc4e663bb45997c7ffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 17/39] fix: give up on a peer that sends messages but no data

Any message reset the idle counter, so endless irrelevant messages held the
piece and the worker forever.
---
 src/peer/buffer.rs       |  4 ++++
 src/peer/download/mod.rs | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/peer/buffer.rs b/src/peer/buffer.rs
index 5e6cc97..6adb8cd 100644
--- a/src/peer/buffer.rs
+++ b/src/peer/buffer.rs
@@ -48,6 +48,10 @@ where
         self.buffer.len() == self.capacity
     }
 
+    pub fn len(&self) -> usize {
+        self.buffer.len()
+    }
+
     pub fn assemble_content(&mut self) -> Vec<u8> {
         self.buffer
             .iter()
diff --git a/src/peer/download/mod.rs b/src/peer/download/mod.rs
index 7f0a907..1604ee7 100644
--- a/src/peer/download/mod.rs
+++ b/src/peer/download/mod.rs
@@ -1,11 +1,14 @@
 pub mod block;
 pub mod info;
 
+use std::time::{Duration, Instant};
+
 use crate::peer::buffer::MessageBuffer;
 use crate::peer::Peer;
 
 pub const BLOCK_SIZE: usize = 16384;
 pub const INFO_PIECE_SIZE: usize = 16384;
+const MAX_USELESS_TIME: Duration = Duration::from_secs(10);
 
 pub enum Downloadable {
     Info,
@@ -60,6 +63,8 @@ where
     F: FnMut(&mut Peer, usize),
 {
     let mut idle_count = 0;
+    let mut received = 0;
+    let mut last_received = Instant::now();
 
     loop {
         if let Some(message) = peer.read_message() {
@@ -76,6 +81,13 @@ where
             return Err(DownloadableError::ChokedPeer());
         }
 
+        if buffer.len() > received {
+            received = buffer.len();
+            last_received = Instant::now();
+        } else if last_received.elapsed() > MAX_USELESS_TIME {
+            return Err(DownloadableError::Idle());
+        }
+
         buffer.request_next_message(peer);
 
         idle_count += 1;
-- 
2.43.0


From c51b90715225e5bda6754e28bed342a792c396b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 18/39] fix: start the download when the metadata comes with
 the last peer

When the metadata was obtained from the eleventh peer or a later one, the
download started only once yet another peer was found, if ever.
---
 src/actors/torrent.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 3611c61..9c01377 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -117,19 +117,19 @@ impl Handler<PeerFound> for TorrentActor {
     fn handle(&mut self, msg: PeerFound, ctx: &mut Context<Self>) -> Self::Result {
         self.peers.push(Peer::new(msg.peer.endpoint()));
 
-        match &self.info {
-            None => {
-                if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
-                    let piece_count = (0..info.get_total_length())
-                        .step_by(info.get_piece_length())
-                        .len();
-
-                    self.piece_available_pool = Some(PiecePool::new(piece_count));
-                    self.info = Some(info);
-                }
-
-                return Ok(true);
+        if self.info.is_none() {
+            if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
+                let piece_count = (0..info.get_total_length())
+                    .step_by(info.get_piece_length())
+                    .len();
+
+                self.piece_available_pool = Some(PiecePool::new(piece_count));
+                self.info = Some(info);
             }
+        }
+
+        match &self.info {
+            None => return Ok(true),
             Some(info) => {
                 if self.peers.len() > 10 && !self.initiated {
                     for _ in 0..5 {
-- 
2.43.0


From 979c1f0abab470ad5da417e31c389e9a9a0100dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:02 +0000
Subject: [PATCH 19/39] fix: a file that cannot be written does not stop the
 writer

The writer's only thread panicked: no file of the torrent was written any
more.
---
 src/torrent/writer.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index e2201d0..1dbd7fe 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -47,21 +47,25 @@ impl FileWriter {
     // TODO: Add optional folder where to save output
     pub fn write_to_filesystem(&self) {
         let path_string = &self.path.join("/");
-        let path = std::path::Path::new(path_string);
-        let prefix = path.parent().unwrap();
-        std::fs::create_dir_all(prefix).unwrap();
+        if let Err(err) = self.try_write(std::path::Path::new(path_string)) {
+            log::error!("Error {:?} in writing to {:?}", err, path_string);
+        }
+    }
 
-        let file = fs::OpenOptions::new()
-            .write(true)
-            .create(true)
-            .open(path)
-            .unwrap();
+    fn try_write(&self, path: &std::path::Path) -> std::io::Result<()> {
+        if let Some(prefix) = path.parent() {
+            std::fs::create_dir_all(prefix)?;
+        }
+
+        let file = fs::OpenOptions::new().write(true).create(true).open(path)?;
 
         #[cfg(target_family = "unix")]
-        file.write_at(&self.piece, self.start as u64).unwrap();
+        file.write_all_at(&self.piece, self.start as u64)?;
 
         #[cfg(target_family = "windows")]
-        file.seek_write(&self.piece, self.start as u64).unwrap();
+        file.seek_write(&self.piece, self.start as u64)?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From e1dca0fdb749110ef97744349580843988fd9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 20/39] fix: write no file outside the download directory

The paths in the metadata were used as they are: absolute paths and parent
references led anywhere.
---
 src/torrent/writer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index 1dbd7fe..df917df 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -47,11 +47,25 @@ impl FileWriter {
     // TODO: Add optional folder where to save output
     pub fn write_to_filesystem(&self) {
         let path_string = &self.path.join("/");
+        if !self.has_safe_path() {
+            log::error!("Refused to write to {:?}", path_string);
+            return;
+        }
         if let Err(err) = self.try_write(std::path::Path::new(path_string)) {
             log::error!("Error {:?} in writing to {:?}", err, path_string);
         }
     }
 
+    // Every component has to name an entry of the directory before it, nothing else.
+    fn has_safe_path(&self) -> bool {
+        !self.path.is_empty()
+            && self.path.iter().all(|name| {
+                let mut components = std::path::Path::new(name).components();
+                matches!(components.next(), Some(std::path::Component::Normal(part)) if part == name.as_str())
+                    && components.next().is_none()
+            })
+    }
+
     fn try_write(&self, path: &std::path::Path) -> std::io::Result<()> {
         if let Some(prefix) = path.parent() {
             std::fs::create_dir_all(prefix)?;
-- 
2.43.0


From 32f6e464efce1e1057eed6c0b3f3cc6748b4f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 21/39] fix: create the files without content

A file of length zero at the beginning or the end of the torrent, or
between two pieces, was never created.
---
 src/torrent/writer.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index df917df..28b1752 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -18,6 +18,9 @@ pub fn write(
     files: Vec<File>,
     piece_length: usize,
 ) -> Result<(), WriterError> {
+    get_empty_file_writers(&files, piece.len(), idx, piece_length)
+        .iter()
+        .for_each(|writer| writer.write_to_filesystem());
     get_file_writers(files, piece, idx, piece_length)
         .iter()
         .for_each(|writer| writer.write_to_filesystem());
@@ -174,6 +177,26 @@ pub fn get_file_writers(
     files_to_write
 }
 
+// Files without content belong to no piece: they are created with the piece they lie in or next to.
+fn get_empty_file_writers(
+    files: &[File],
+    piece_size: usize,
+    idx: usize,
+    piece_length: usize,
+) -> Vec<FileWriter> {
+    let offset = idx * piece_length;
+    let mut position = 0;
+    let mut files_to_write = vec![];
+
+    for file in files {
+        position += file.get_length();
+        if file.get_length() == 0 && (offset..=offset + piece_size).contains(&position) {
+            files_to_write.push(FileWriter::new(file.get_path(), 0, 0, vec![]));
+        }
+    }
+    files_to_write
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From e4472b6135d4f8fd02b93b4d249b4a66b66f3970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 22/39] fix: reject what is no magnet link, accept every info
 hash

Links without a parameter after the info hash panicked the handler, as did
anything that is no magnet link; base32 hashes were never decoded, other
digits were turned into garbage.
---
 src/main.rs           |  5 ++++-
 src/torrent/magnet.rs | 31 +++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 89febf3..c0f625a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,7 +24,10 @@ use crate::actors::torrent::TorrentActor;
 
 #[post("/add/magnet")]
 async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpResponse {
-    let magnet = magnet::parse_magnet(magnet_raw.as_bytes().to_vec()).unwrap();
+    let magnet = match magnet::parse_magnet(magnet_raw.as_bytes().to_vec()) {
+        Ok(magnet) => magnet,
+        Err(err) => return HttpResponse::BadRequest().body(err.to_string()),
+    };
     let info_hash = magnet.get_info_hash();
 
     let addr = TorrentActor::new(info_hash.clone()).start();
diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index da681f5..3d843b7 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -11,12 +11,18 @@ pub enum MagnetError {
 
 impl Magnet {
     pub fn get_info_hash(&self) -> Vec<u8> {
-        self.info_hash.to_vec()
+        match self.info_hash.len() {
+            32 => base32_decode(&self.info_hash).unwrap_or_default(),
+            _ => self.info_hash.to_vec(),
+        }
     }
 }
 
+const PREFIX: &[u8] = b"magnet:?xt=urn:btih:";
+const BASE32: base32::Alphabet = base32::Alphabet::RFC4648 { padding: false };
+
 fn verify_info_hash(magnet_uri: &[u8]) -> bool {
-    magnet_uri.len() < 60 || &magnet_uri[..8] != "magnet:?".as_bytes()
+    !magnet_uri.starts_with(PREFIX)
 }
 
 // Given a string representation of an hex character we obtain the hex byte representation.
@@ -48,11 +54,20 @@ fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
         .collect::<Vec<u8>>()
 }
 
-fn parse_info_hash(magnet_uri: &[u8]) -> Vec<u8> {
-    if magnet_uri[60] == b'&' {
-        hex_decode(&magnet_uri[20..60])
-    } else {
-        magnet_uri[20..52].to_vec()
+fn base32_decode(info_hash_base32_encoded: &[u8]) -> Option<Vec<u8>> {
+    let encoded = std::str::from_utf8(info_hash_base32_encoded).ok()?;
+    base32::decode(BASE32, encoded).filter(|info_hash| info_hash.len() == 20)
+}
+
+fn parse_info_hash(magnet_uri: &[u8]) -> Option<Vec<u8>> {
+    let info_hash = magnet_uri[PREFIX.len()..]
+        .split(|byte| *byte == b'&')
+        .next()?;
+
+    match info_hash.len() {
+        40 if info_hash.iter().all(u8::is_ascii_hexdigit) => Some(hex_decode(info_hash)),
+        32 if base32_decode(info_hash).is_some() => Some(info_hash.to_vec()),
+        _ => None,
     }
 }
 
@@ -61,7 +76,7 @@ pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
         return Err(MagnetError::NoMagnet());
     }
 
-    let info_hash = parse_info_hash(&magnet_uri);
+    let info_hash = parse_info_hash(&magnet_uri).ok_or(MagnetError::NoMagnet())?;
 
     Ok(Magnet { info_hash })
 }
-- 
2.43.0


From f0d3c393ef0b51a67057de611ec24eef9e4d659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 23/39] fix: a magnet reaches every tracker, however busy

With a full mailbox the registration was dropped silently, for all or for
some trackers.
---
 src/actors/trackers_interface.rs | 2 +-
 src/main.rs                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actors/trackers_interface.rs b/src/actors/trackers_interface.rs
index 5d9ed75..497e7ac 100644
--- a/src/actors/trackers_interface.rs
+++ b/src/actors/trackers_interface.rs
@@ -58,7 +58,7 @@ impl Handler<TorrentRegistered> for TrackersInterfaceActor {
 
     fn handle(&mut self, msg: TorrentRegistered, _ctx: &mut Context<Self>) -> Self::Result {
         for actor in self.trackers.iter() {
-            let _ = actor.try_send(msg.clone());
+            actor.do_send(msg.clone());
         }
 
         Ok(true)
diff --git a/src/main.rs b/src/main.rs
index c0f625a..ed1bd85 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -37,7 +37,7 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
         torrent_actor_addr: addr.clone(),
     };
 
-    let _ = data.trackers_interface.try_send(msg);
+    data.trackers_interface.do_send(msg);
 
     HttpResponse::Ok().body("Test")
 }
-- 
2.43.0


From f70c67d3e135720a2502807ddebe9fbd5925c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 24/39] fix: an unreachable tracker is an error, not a panic

The panic took the actor of that tracker down: no later magnet was announced
to it.
---
 src/tracker/udp_tracker.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index acdbdaf..19243f0 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -10,6 +10,8 @@ pub enum UdpTrackerError {
     HostnameMissing(),
     #[error("Wrong response size less than 26 bytes")]
     WrongResponseSize(),
+    #[error("Error in setting up the socket")]
+    SocketError(),
     #[error("No connection established with udp tracker")]
     NoConnectionEstablished(),
     #[error("Error in recieving packet through socket")]
@@ -25,7 +27,7 @@ pub async fn call(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let socket = UdpSocket::bind("0.0.0.0:0")
         .await
-        .expect("couldn't bind to address");
+        .map_err(|_| UdpTrackerError::SocketError())?;
     let tracker_hostname = format!(
         "{}:{}",
         tracker_url
@@ -37,7 +39,7 @@ pub async fn call(
     socket
         .connect(tracker_hostname.clone())
         .await
-        .expect("Panico");
+        .map_err(|_| UdpTrackerError::SocketError())?;
 
     let transaction_id: &[u8] = &[0x00, 0x01, 0x19, 0x9e];
     let connection_id = connect_to_tracker(transaction_id, &socket).await?;
-- 
2.43.0


From 90598af2a6ada6f9288155b4e36048b9c771d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 25/39] fix: retry when a datagram of the tracker exchange is
 lost

The client waited forever for the reply to a lost request.
---
 src/tracker/udp_tracker.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 19243f0..6399ff7 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -1,7 +1,11 @@
 use tokio::net::UdpSocket;
 
+use std::time::Duration;
+
 use url::Url;
 
+const RESPONSE_TIMEOUT: Duration = Duration::from_secs(2);
+
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum UdpTrackerError {
     #[error("Tracker missing post")]
@@ -50,12 +54,18 @@ pub async fn call(
         peer_id.as_bytes(),
         info_hash,
     );
-    send_upd_packet(&socket, message).await?;
-
     let mut annouce_buf: [u8; 4000] = [0x00; 4000];
-    let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
-    if resp_size > 26 {
-        return Ok(annouce_buf[20..resp_size].to_vec());
+
+    for retry in 1..5 {
+        if send_upd_packet(&socket, message).await.is_err() {
+            log::error!("Send udp announce packet failed, retry number {}", retry);
+        };
+
+        if let Ok(resp_size) = read_upd_packet(&socket, &mut annouce_buf).await {
+            if resp_size > 26 {
+                return Ok(annouce_buf[20..resp_size].to_vec());
+            }
+        }
     }
 
     Err(UdpTrackerError::WrongResponseSize())
@@ -83,9 +93,9 @@ async fn connect_to_tracker(
 }
 
 async fn read_upd_packet(socket: &UdpSocket, buffer: &mut [u8]) -> Result<usize, UdpTrackerError> {
-    let (resp_size, _) = socket
-        .recv_from(buffer)
+    let (resp_size, _) = tokio::time::timeout(RESPONSE_TIMEOUT, socket.recv_from(buffer))
         .await
+        .map_err(|_| UdpTrackerError::RecieveError())?
         .map_err(|_| UdpTrackerError::RecieveError())?;
 
     Ok(resp_size)
-- 
2.43.0


From 52b9a1f783ce025253d7027de3611697bab2090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 26/39] fix: take announce replies with a single peer

A reply has a header of 20 bytes: one with exactly one peer was refused.
---
 src/tracker/udp_tracker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 6399ff7..97ef521 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -12,7 +12,7 @@ pub enum UdpTrackerError {
     PostMissing(),
     #[error("Tracker missing hostname")]
     HostnameMissing(),
-    #[error("Wrong response size less than 26 bytes")]
+    #[error("Wrong response size less than 20 bytes")]
     WrongResponseSize(),
     #[error("Error in setting up the socket")]
     SocketError(),
@@ -62,7 +62,7 @@ pub async fn call(
         };
 
         if let Ok(resp_size) = read_upd_packet(&socket, &mut annouce_buf).await {
-            if resp_size > 26 {
+            if resp_size >= 20 {
                 return Ok(annouce_buf[20..resp_size].to_vec());
             }
         }
-- 
2.43.0


From f35f051a7cbea7e831ebbb75b6efa16538ba9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 27/39] fix: take all peers of a long announce reply

The reply was cut at 4000 bytes.
---
 src/tracker/udp_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 97ef521..387dc6c 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -54,7 +54,7 @@ pub async fn call(
         peer_id.as_bytes(),
         info_hash,
     );
-    let mut annouce_buf: [u8; 4000] = [0x00; 4000];
+    let mut annouce_buf = vec![0x00; 65536];
 
     for retry in 1..5 {
         if send_upd_packet(&socket, message).await.is_err() {
-- 
2.43.0


From 1e822de5adc629da88a05ec8f8a3b8e9658c2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 28/39] fix: accept only the tracker's reply to the request

Neither the action nor the transaction id nor the size of a reply was
checked: an error message was taken for a connection id or for peers.
---
 src/tracker/udp_tracker.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 387dc6c..9274df1 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -61,10 +61,8 @@ pub async fn call(
             log::error!("Send udp announce packet failed, retry number {}", retry);
         };
 
-        if let Ok(resp_size) = read_upd_packet(&socket, &mut annouce_buf).await {
-            if resp_size >= 20 {
-                return Ok(annouce_buf[20..resp_size].to_vec());
-            }
+        if let Ok(resp_size) = read_reply(&socket, &mut annouce_buf, &message[8..16], 20).await {
+            return Ok(annouce_buf[20..resp_size].to_vec());
         }
     }
 
@@ -84,7 +82,10 @@ async fn connect_to_tracker(
             log::error!("Send udp connect packet failed, retry number {}", retry);
         };
 
-        if read_upd_packet(socket, &mut buf).await.is_ok() {
+        if read_reply(socket, &mut buf, &message[8..16], 16)
+            .await
+            .is_ok()
+        {
             return Ok(buf[8..].to_vec());
         }
     }
@@ -92,10 +93,32 @@ async fn connect_to_tracker(
     Err(UdpTrackerError::NoConnectionEstablished())
 }
 
-async fn read_upd_packet(socket: &UdpSocket, buffer: &mut [u8]) -> Result<usize, UdpTrackerError> {
-    let (resp_size, _) = tokio::time::timeout(RESPONSE_TIMEOUT, socket.recv_from(buffer))
+// Waits for a reply of at least the given size with the action and the transaction id of the request,
+// anything else is left aside.
+async fn read_reply(
+    socket: &UdpSocket,
+    buffer: &mut [u8],
+    header: &[u8],
+    minimum_size: usize,
+) -> Result<usize, UdpTrackerError> {
+    let reply = async {
+        loop {
+            let resp_size = read_upd_packet(socket, buffer).await?;
+            if resp_size >= minimum_size && buffer.starts_with(header) {
+                return Ok(resp_size);
+            }
+        }
+    };
+
+    tokio::time::timeout(RESPONSE_TIMEOUT, reply)
         .await
         .map_err(|_| UdpTrackerError::RecieveError())?
+}
+
+async fn read_upd_packet(socket: &UdpSocket, buffer: &mut [u8]) -> Result<usize, UdpTrackerError> {
+    let (resp_size, _) = socket
+        .recv_from(buffer)
+        .await
         .map_err(|_| UdpTrackerError::RecieveError())?;
 
     Ok(resp_size)
-- 
2.43.0


From fd202fc639780ae7524c6c1ac00a5c2a2bb9bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:21 +0000
Subject: [PATCH 29/39] fix: probe the peers of a reply without blocking the
 other trackers

---
 src/actors/tracker.rs        |  2 +-
 src/tracker/peer_endpoint.rs | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/actors/tracker.rs b/src/actors/tracker.rs
index 617a7e6..22b8493 100644
--- a/src/actors/tracker.rs
+++ b/src/actors/tracker.rs
@@ -32,7 +32,7 @@ impl Handler<TorrentRegistered> for TrackerActor {
 
             if let Ok(peers) = result {
                 for peer in peers {
-                    if PeerEndpoint::is_reachable(&peer.endpoint()) {
+                    if PeerEndpoint::is_reachable(&peer.endpoint()).await {
                         msg.torrent_actor_addr.do_send(PeerFound { peer });
                     }
                 }
diff --git a/src/tracker/peer_endpoint.rs b/src/tracker/peer_endpoint.rs
index 2f58aae..0e3ac17 100644
--- a/src/tracker/peer_endpoint.rs
+++ b/src/tracker/peer_endpoint.rs
@@ -1,4 +1,6 @@
-use std::{net::TcpStream, time::Duration};
+use std::{net::SocketAddr, time::Duration};
+
+use tokio::net::TcpStream;
 
 #[derive(Clone, Debug)]
 pub struct PeerEndpoint(String, u16);
@@ -20,11 +22,16 @@ impl PeerEndpoint {
         peers_info
     }
 
-    pub fn is_reachable(endpoint: &str) -> bool {
-        match endpoint.parse() {
-            Ok(socket) => TcpStream::connect_timeout(&socket, Duration::from_millis(50)).is_ok(),
-            Err(_) => false,
-        }
+    pub async fn is_reachable(endpoint: &str) -> bool {
+        let socket: SocketAddr = match endpoint.parse() {
+            Ok(socket) => socket,
+            Err(_) => return false,
+        };
+
+        matches!(
+            tokio::time::timeout(Duration::from_millis(50), TcpStream::connect(socket)).await,
+            Ok(Ok(_))
+        )
     }
 
     pub fn endpoint(&self) -> String {
-- 
2.43.0


From 4a50f216dde786af110ac821206e24a7ed5a2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:47 +0000
Subject: [PATCH 30/39] fix: run each torrent on a thread of its own

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ed1bd85..70cf225 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -30,7 +30,9 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
     };
     let info_hash = magnet.get_info_hash();
 
-    let addr = TorrentActor::new(info_hash.clone()).start();
+    // Asking peers for metadata blocks, each torrent gets a thread of its own
+    let torrent = TorrentActor::new(info_hash.clone());
+    let addr = TorrentActor::start_in_arbiter(&Arbiter::new().handle(), |_| torrent);
 
     let msg = TorrentRegistered {
         info_hash,
-- 
2.43.0


From c96fbcc8bb871f17d3bbd43afa46bb84757db232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:12 +0000
Subject: [PATCH 31/39] fix: no padding within a base32 info hash

---
 src/torrent/magnet.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index 3d843b7..1bc1fe0 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -55,6 +55,11 @@ fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
 }
 
 fn base32_decode(info_hash_base32_encoded: &[u8]) -> Option<Vec<u8>> {
+    // The decoder takes padding for zeros even where there cannot be any
+    if info_hash_base32_encoded.contains(&b'=') {
+        return None;
+    }
+
     let encoded = std::str::from_utf8(info_hash_base32_encoded).ok()?;
     base32::decode(BASE32, encoded).filter(|info_hash| info_hash.len() == 20)
 }
-- 
2.43.0


From d1a8b5d98ef8a8ce2f5e8112030938670faa4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 32/39] fix: keep the tracker's own query in the announce URL

---
 src/tracker/tcp_tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index a628db4..afbb43f 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -22,9 +22,11 @@ pub enum TcpTrackerError {
 pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, TcpTrackerError> {
     let url_encoded_info_hash = urlencoding::encode_binary(info_hash).into_owned();
 
+    let separator = if tracker.query().is_some() { '&' } else { '?' };
     let url = format!(
-        "{}?info_hash={}&peer_id={}",
+        "{}{}info_hash={}&peer_id={}",
         tracker.as_str(),
+        separator,
         url_encoded_info_hash,
         peer_id
     );
-- 
2.43.0


From 389f60dece956146a7c8be67766965713c32a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 33/39] fix: send the tracker's own name as Host

---
 src/tracker/tcp_tracker.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index afbb43f..42d3a86 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -49,7 +49,6 @@ fn call_tracker_for_peers(url: String) -> Result<ureq::Response, TcpTrackerError
         .set("Accept", "*/*")
         .set("Connection", "keep-alive")
         .set("User-Agent", "PostmanRuntime/7.29.0")
-        .set("Host", "192.168.1.2")
         .call()
         .map_err(|_| TcpTrackerError::Connection(url))
 }
-- 
2.43.0


From 2990fabaa8faa5bf73e17195f5be4d71b3890242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 34/39] fix: do not ask the tracker for encodings that are not
 decoded

---
 src/tracker/tcp_tracker.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index 42d3a86..a982d21 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -45,7 +45,6 @@ pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, T
 fn call_tracker_for_peers(url: String) -> Result<ureq::Response, TcpTrackerError> {
     ureq::get(&url)
         .timeout(Duration::from_millis(400))
-        .set("Accept-Encoding", "gzip, deflate, br")
         .set("Accept", "*/*")
         .set("Connection", "keep-alive")
         .set("User-Agent", "PostmanRuntime/7.29.0")
-- 
2.43.0


From 8eab01e87e1f8fa50c878023cacfd70312489210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:40 +0000
Subject: [PATCH 35/39] fix: wait for a peer's handshake as long as for its
 other messages

The handshake was given a single read of a tenth of a second: peers
farther away than that could never be used.
---
 src/peer/manager.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 55e2660..a27ef50 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -100,9 +100,20 @@ pub fn download(
 
 fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_message(new_handshake(&peer.get_info_hash(), &peer.get_peer_id()));
-    match peer.read_message() {
-        Some(message) => peer.apply_message(&message),
-        None => debug!("No message available to read"),
+
+    let start = Instant::now();
+    let mut idle_count = 0;
+    while idle_count < 10 && start.elapsed() < MAX_INIT_TIME {
+        match peer.read_message() {
+            Some(message) => {
+                peer.apply_message(&message);
+                break;
+            }
+            None => {
+                idle_count += 1;
+                debug!("No message available to read")
+            }
+        }
     }
 
     if !peer.is_active() {
@@ -113,7 +124,6 @@ fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_metadata_handshake_request()
         .map_err(|_| PeerManagerError::HandshakeMetadata())?;
 
-    let start = Instant::now();
     let mut idle_count = 0;
     while idle_count < 10 && start.elapsed() < MAX_INIT_TIME {
         match peer.read_message() {
-- 
2.43.0


From 2bac1aa8af5833cf525da11defea0f455b4048d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:40 +0000
Subject: [PATCH 36/39] fix: receive messages larger than the socket's buffer

The body of a message was taken only when all of it could be peeked at
once, which never happens once it is larger than the receive buffer: the
session ended although every byte had been sent.
---
 src/peer/stream.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index 3940f2d..206a68e 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -112,6 +112,20 @@ fn wait_and_read(stream: &mut StreamInterface, buffer: &mut [u8]) -> bool {
     false
 }
 
+// A body may be larger than what the socket can hold: its bytes are taken as they arrive.
+fn read_body(stream: &mut StreamInterface, length: usize) -> Option<Vec<u8>> {
+    let mut body = vec![0; length];
+    let mut received = 0;
+    for retry in 1..40 {
+        received += stream.read(&mut body[received..]).unwrap_or(0);
+        if received == length {
+            return Some(body);
+        }
+        thread::sleep(time::Duration::from_millis(5 * retry));
+    }
+    None
+}
+
 // Here we should try to return a Result to signal the presence of errors
 pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
     if stream
@@ -150,14 +164,7 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
 
     length -= 1;
 
-    let mut body = vec![0; length as usize];
-    for retry in 1..40 {
-        if peek_and_read(stream, &mut body, length as usize) {
-            return Some((body, id, length));
-        }
-        thread::sleep(time::Duration::from_millis(5 * retry));
-    }
-    None
+    read_body(stream, length as usize).map(|body| (body, id, length))
 }
 
 pub fn write_stream(stream: &mut StreamInterface, buffer: &[u8]) {
-- 
2.43.0


From 8e5dea41bd9441f3899aafa5e2782443cca5534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:40 +0000
Subject: [PATCH 37/39] fix: do not allocate whatever length a peer claims

Five bytes claiming a 4 GiB message aborted the client where that much
memory cannot be had.
---
 src/peer/stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index 206a68e..4f4d0be 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -11,6 +11,9 @@ use crate::common::mock_stream::MockStream;
 // A keep-alive carries no id: the id of no message stands for it.
 const KEEP_ALIVE_ID: u8 = u8::MAX;
 
+// No message of the protocol comes near this size, a claim of more than this is not worth the memory.
+const MAX_BODY_LENGTH: u32 = 16 * 1024 * 1024;
+
 #[derive(Debug)]
 pub enum StreamInterface {
     #[allow(dead_code)]
@@ -164,6 +167,9 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
 
     length -= 1;
 
+    if length > MAX_BODY_LENGTH {
+        return None;
+    }
     read_body(stream, length as usize).map(|body| (body, id, length))
 }
 
-- 
2.43.0


From 0ccb307eac382ba7e562356803989d6ca384c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 38/39] fix: leave the fragment of the tracker's address out of
 the request

---
 src/tracker/tcp_tracker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index a982d21..a35b170 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -22,6 +22,10 @@ pub enum TcpTrackerError {
 pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, TcpTrackerError> {
     let url_encoded_info_hash = urlencoding::encode_binary(info_hash).into_owned();
 
+    // What follows the fragment is not sent
+    let mut tracker = tracker.clone();
+    tracker.set_fragment(None);
+
     let separator = if tracker.query().is_some() { '&' } else { '?' };
     let url = format!(
         "{}{}info_hash={}&peer_id={}",
-- 
2.43.0


From 5fa951b0ba207b64214e45632921602c29896a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:04 +0000
Subject: [PATCH 39/39] fix: the thread of a torrent ends with it

---
 src/actors/torrent.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9c01377..32ed082 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -48,7 +48,10 @@ impl Actor for TorrentActor {
 
     fn started(&mut self, _ctx: &mut Context<Self>) {}
 
-    fn stopped(&mut self, _ctx: &mut Context<Self>) {}
+    // The thread of the torrent is of no use to anybody else
+    fn stopped(&mut self, _ctx: &mut Context<Self>) {
+        Arbiter::current().stop();
+    }
 }
 
 impl Handler<PieceDownloadSuccessfull> for TorrentActor {
-- 
2.43.0

