From 69e96d996a241f3b0731a80688a42dfab5ac4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 01/19] sim hook: construct session identifiers under
 cfg(hop_sim)

---
 engine/src/session/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/src/session/mod.rs b/engine/src/session/mod.rs
index 9d81aeb..fb5040e 100644
--- a/engine/src/session/mod.rs
+++ b/engine/src/session/mod.rs
@@ -5,6 +5,16 @@ pub use manager::SessionManager;
 #[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
 pub struct SessionId(u32);
 
+// Identifiers can't be made outside of the crate yet; the simulator needs them to
+// drive the pubsub registry.
+#[allow(unexpected_cfgs)]
+#[cfg(hop_sim)]
+impl SessionId {
+    pub fn sim_new(id: u32) -> Self {
+        Self(id)
+    }
+}
+
 #[derive(Debug)]
 pub struct Session {
     pub client_token: [u8; 32],
-- 
2.43.0


From 9c2903e8679ac2ff9475e2630609de2a97eaca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 02/19] fix: request decoding of key-typed requests, arguments
 and repeated requests

---
 engine/src/command/request/context.rs | 96 ++++++++++++++++++++-------
 1 file changed, 71 insertions(+), 25 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..cfaa9d2 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -47,6 +47,7 @@ impl Default for Stage {
 
 #[derive(Debug)]
 pub struct Context {
+    finished: bool,
     idx: usize,
     positions: ArrayVec<[usize; 256]>,
     stage: Stage,
@@ -59,7 +60,45 @@ impl Context {
         Default::default()
     }
 
+    /// Feed the buffered bytes of a request into the context.
+    ///
+    /// The buffer must start at the request's first byte. While `None` is
+    /// returned more bytes are required. The returned request's bytes are
+    /// exactly the ones that it consists of: [`Request::as_bytes`]'s length is
+    /// the number of bytes of the buffer that have been used, and the next
+    /// request starts after them.
+    ///
+    /// The context starts over after a request or an error has been returned.
+    ///
+    /// [`Request::as_bytes`]: struct.Request.html#method.as_bytes
     pub fn feed<'a>(&'a mut self, buf: &'a [u8]) -> Result<Option<Request<'a>>, ParseError> {
+        // The positions of a request are borrowed by it once it's returned, so
+        // they can only be cleared when the next one is started.
+        if self.finished {
+            self.reset();
+        }
+
+        match self.parse(buf) {
+            Ok(Some((command_id, key_type))) => {
+                self.finished = true;
+
+                Ok(Some(Request {
+                    buf: Cow::Borrowed(&buf[..self.idx]),
+                    command_id,
+                    key_type,
+                    positions: Cow::Borrowed(&self.positions),
+                }))
+            }
+            Ok(None) => Ok(None),
+            Err(why) => {
+                self.reset();
+
+                Err(why)
+            }
+        }
+    }
+
+    fn parse(&mut self, buf: &[u8]) -> Result<Option<(CommandId, Option<KeyType>)>, ParseError> {
         loop {
             let conclusion = {
                 // We need to do this check on the first iteration to make sure we
@@ -86,16 +125,7 @@ impl Context {
             };
 
             match conclusion {
-                Conclusion::Finished((command_id, key_type)) => {
-                    self.reset();
-
-                    return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
-                        command_id,
-                        key_type,
-                        positions: Cow::Borrowed(&self.positions),
-                    }));
-                }
+                Conclusion::Finished(parsed) => return Ok(Some(parsed)),
                 Conclusion::Incomplete => return Ok(None),
                 Conclusion::Next => continue,
             }
@@ -108,32 +138,40 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
-        // If the first bit is flipped, then this byte is denoting the type of
-        // key to work with. This means that byte idx 2 is the argument length.
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        // If the first bit is flipped, then the second byte is denoting the
+        // type of key to work with and is followed by the argument count.
         //
-        // If the first bit is 0, then this byte is the argument length, and the
-        // type of key to work with is not a requirement.
-        let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+        // If the first bit is 0, then the second byte is the argument count,
+        // and the type of key to work with is not a requirement.
+        let (key_type, header_len) = if byte >> 7 == 1 {
+            let key_type_id = match buf.get(1) {
+                Some(key_type_id) => *key_type_id,
+                None => return Ok(Conclusion::Incomplete),
+            };
 
-            Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
+            let key_type =
+                KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?;
+
+            (Some(key_type), 2)
         } else {
-            None
+            (None, 1)
         };
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
+        self.idx = header_len;
 
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
-            return Ok(Conclusion::Finished((command_id, None)));
+            return Ok(Conclusion::Finished((command_id, key_type)));
         }
 
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
 
         Ok(Conclusion::Next)
     }
@@ -156,6 +194,10 @@ impl Context {
         };
         self.idx = self.idx.saturating_add(1);
 
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         Ok(Conclusion::Next)
     }
 
@@ -173,13 +215,15 @@ impl Context {
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        let end = self.idx + Self::ARG_LEN_BYTES + arg_len;
+
+        if buf.get(self.idx..end).is_none() {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        // The position of an argument is the index of its last byte.
+        self.positions.push(end - 1);
+        self.idx = end;
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
@@ -189,6 +233,7 @@ impl Context {
     }
 
     fn reset(&mut self) {
+        self.finished = false;
         self.idx = 0;
         self.positions.clear();
         self.stage = Stage::default();
@@ -198,6 +243,7 @@ impl Context {
 impl Default for Context {
     fn default() -> Self {
         Self {
+            finished: false,
             idx: 0,
             positions: ArrayVec::new(),
             stage: Stage::default(),
-- 
2.43.0


From 46250d734f55ac589e4a1a99acfc7e03bbd7eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 03/19] fix: refuse requests that don't fit the wire format
 when building them

---
 engine/src/command/request/builder.rs | 30 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..297df20 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,20 +171,20 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                for item in list {
-                    if item.is_empty() {
-                        return Err(RequestBuilderError::ValueEmpty);
-                    }
+                if list.is_empty() || list.iter().any(|item| item.is_empty()) {
+                    return Err(RequestBuilderError::ValueEmpty);
+                }
 
+                for item in list {
                     self.push_argument(item)?;
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len().saturating_mul(2)) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,13 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        // Requests of simple commands have no room for arguments at all.
+        if self.command_id.is_simple() {
+            return amount > 0;
+        }
+
+        (self.argument_count as usize).saturating_add(amount) > u8::MAX as usize
     }
 
     fn update_count(&mut self) {
@@ -235,13 +240,17 @@ impl RequestBuilder {
     /// # Errors
     ///
     /// Returns [`RequestBuilderError::TooManyArguments`] if the list of
-    /// arguments is already full.
+    /// arguments is already full or if the command doesn't take arguments.
     ///
     /// [`RequestBuilderError::TooManyArguments`]: enum.RequestBuilderError.html#variant.TooManyArguments
     fn push_argument<'a>(
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
@@ -277,6 +286,7 @@ impl RequestBuilder {
 impl From<Request<'_>> for RequestBuilder {
     fn from(request: Request) -> Self {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
+        builder.argument_count = request.positions.len() as u8;
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
 
-- 
2.43.0


From 7bd8232adf6975dcad4ae468375d7648d8966ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 04/19] fix: decode empty and invalid responses without
 stalling or panicking

---
 engine/src/command/response/context.rs | 55 ++++++++++++++++++--------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..eb7a176 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -97,21 +97,27 @@ impl Context {
     pub fn feed(&mut self, buf: &[u8]) -> Result<Instruction, ParseError> {
         loop {
             let instruction = match self.stage {
-                Stage::Init => self.stage_init(buf)?,
-                Stage::DetermineType => self.stage_determine_type(buf)?,
-                Stage::Boolean => self.stage_boolean(buf)?,
-                Stage::Bytes { len } => self.stage_bytes(buf, len)?,
-                Stage::Float => self.stage_float(buf)?,
-                Stage::Integer => self.stage_integer(buf)?,
-                Stage::List { .. } => self.stage_list(buf)?,
-                Stage::Map { .. } => self.stage_map(buf)?,
-                Stage::Set { .. } => self.stage_set(buf)?,
-                Stage::String { len } => self.stage_string(buf, len)?,
-                Stage::TypeInit { kind, read_len } => self.stage_type_init(buf, kind, read_len)?,
-                Stage::DispatchError => self.stage_dispatch_error(buf)?,
-                Stage::ParseError => self.stage_parse_error(buf)?,
+                Stage::Init => self.stage_init(buf),
+                Stage::DetermineType => self.stage_determine_type(buf),
+                Stage::Boolean => self.stage_boolean(buf),
+                Stage::Bytes { len } => self.stage_bytes(buf, len),
+                Stage::Float => self.stage_float(buf),
+                Stage::Integer => self.stage_integer(buf),
+                Stage::List { .. } => self.stage_list(buf),
+                Stage::Map { .. } => self.stage_map(buf),
+                Stage::Set { .. } => self.stage_set(buf),
+                Stage::String { len } => self.stage_string(buf, len),
+                Stage::TypeInit { kind, read_len } => self.stage_type_init(buf, kind, read_len),
+                Stage::DispatchError => self.stage_dispatch_error(buf),
+                Stage::ParseError => self.stage_parse_error(buf),
             };
 
+            let instruction = instruction.map_err(|why| {
+                self.reset();
+
+                why
+            })?;
+
             match instruction {
                 Some(Instruction::Concluded(response)) => {
                     self.reset();
@@ -215,7 +221,7 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant = DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -366,7 +372,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -381,7 +388,11 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => {
+                let remaining = remaining_bytes(self.idx, buf.len(), read_len);
+
+                return Ok(Some(Instruction::ReadBytes(remaining)));
+            }
         };
 
         debug_assert_eq!(bytes.len(), read_len);
@@ -390,11 +401,19 @@ impl Context {
             ResponseType::Bytes => {
                 let len = u32::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::bytes()))));
+                }
+
                 Stage::Bytes { len }
             }
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::list()))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -415,6 +434,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::set()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
-- 
2.43.0


From c15d3550928dc22575522af9d008d600ccb6a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 05/19] fix: create and replace values in one step so that
 they're never seen half-applied

---
 engine/src/command/impl/set.rs | 163 ++++++++-------------------------
 engine/src/state/mod.rs        |  13 +--
 2 files changed, 38 insertions(+), 138 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 633e836..9a11ea2 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -8,117 +8,25 @@ use alloc::{borrow::ToOwned, vec::Vec};
 pub struct Set;
 
 impl Set {
-    fn boolean(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::boolean);
-        let boolean = key
-            .as_boolean_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *boolean = arg;
-
-        response::write_bool(resp, arg);
-
-        Ok(())
-    }
-
-    fn bytes(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req
-            .typed_arg::<&[u8]>(1)
-            .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *bytes = arg.to_vec();
-
-        response::write_bytes(resp, arg);
-
-        Ok(())
-    }
-
-    fn float(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::float);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float = arg;
-
-        response::write_float(resp, arg);
-
-        Ok(())
-    }
-
-    fn integer(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int = arg;
-
-        response::write_int(resp, arg);
-
-        Ok(())
-    }
-
-    fn list(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *list = args.map(ToOwned::to_owned).collect();
-        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-
-        response::write_list(resp, args);
-
-        Ok(())
-    }
-
-    fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::map);
-        let map = key.as_map_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_map(resp, &args);
-
-        *map = args;
-
-        Ok(())
-    }
-
-    fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::set);
-        let set = key.as_set_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_set(resp, &args);
-
-        *set = args;
-
-        Ok(())
-    }
-
-    fn string(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req
-            .typed_arg::<&str>(1)
-            .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *string = arg.to_owned();
-
-        response::write_str(resp, arg);
-
-        Ok(())
+    fn value(req: &Request, key_type: KeyType) -> DispatchResult<Value> {
+        let value = match key_type {
+            KeyType::Bytes => req
+                .typed_arg::<&[u8]>(1)
+                .map(|arg| Value::Bytes(arg.to_vec())),
+            KeyType::Boolean => req.typed_arg(1).map(Value::Boolean),
+            KeyType::Float => req.typed_arg(1).map(Value::Float),
+            KeyType::Integer => req.typed_arg(1).map(Value::Integer),
+            KeyType::List => req
+                .args(1..)
+                .map(|args| Value::List(args.map(ToOwned::to_owned).collect())),
+            KeyType::Map => req.typed_args().map(Value::Map),
+            KeyType::Set => req.typed_args().map(Value::Set),
+            KeyType::String => req
+                .typed_arg::<&str>(1)
+                .map(|arg| Value::String(arg.to_owned())),
+        };
+
+        value.ok_or(DispatchError::ArgumentRetrieval)
     }
 }
 
@@ -126,26 +34,29 @@ impl Dispatch for Set {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        // All types require at least one argument, so let's do that check here.
         if req.arg(1).is_none() {
             return Err(DispatchError::ArgumentRetrieval);
         }
 
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Bytes);
-
-        match key_type {
-            KeyType::Bytes => Self::bytes(hop, req, resp, key),
-            KeyType::Boolean => Self::boolean(hop, req, resp, key),
-            KeyType::Float => Self::float(hop, req, resp, key),
-            KeyType::Integer => Self::integer(hop, req, resp, key),
-            KeyType::List => Self::list(hop, req, resp, key),
-            KeyType::Map => Self::map(hop, req, resp, key),
-            KeyType::Set => Self::set(hop, req, resp, key),
-            KeyType::String => Self::string(hop, req, resp, key),
+        match req.key_type() {
+            Some(key_type) => {
+                let value = Self::value(req, key_type)?;
+                response::write_value(resp, &value);
+
+                hop.state().insert(key.to_owned(), value);
+            }
+            None => {
+                // The type of the existing value is the one to set, so it can't
+                // be allowed to change until the new value is in place.
+                let mut current = hop.state().key_or_insert_with(key, Value::bytes);
+                let value = Self::value(req, current.kind())?;
+                response::write_value(resp, &value);
+
+                *current = value;
+            }
         }
+
+        Ok(())
     }
 }
 
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..d4f5a08 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -177,18 +177,7 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From f974a815b2120263fc52aa40ff09fb0d2051528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 06/19] fix: refuse map keys and set items that responses can't
 represent

---
 engine/src/command/impl/set.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 9a11ea2..deee39e 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -4,6 +4,7 @@ use crate::{
     Hop,
 };
 use alloc::{borrow::ToOwned, vec::Vec};
+use dashmap::{DashMap, DashSet};
 
 pub struct Set;
 
@@ -19,8 +20,16 @@ impl Set {
             KeyType::List => req
                 .args(1..)
                 .map(|args| Value::List(args.map(ToOwned::to_owned).collect())),
-            KeyType::Map => req.typed_args().map(Value::Map),
-            KeyType::Set => req.typed_args().map(Value::Set),
+            // The length of a map's key has to fit in a byte and the length of a
+            // set's item in two bytes to be representable in responses.
+            KeyType::Map => req
+                .typed_args::<DashMap<Vec<u8>, Vec<u8>>>()
+                .filter(|map| map.iter().all(|item| item.key().len() <= u8::MAX as usize))
+                .map(Value::Map),
+            KeyType::Set => req
+                .typed_args::<DashSet<Vec<u8>>>()
+                .filter(|set| set.iter().all(|item| item.len() <= u16::MAX as usize))
+                .map(Value::Set),
             KeyType::String => req
                 .typed_arg::<&str>(1)
                 .map(|arg| Value::String(arg.to_owned())),
-- 
2.43.0


From 6fe05839c3b9491c8348350896cfd67fdf5688f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 07/19] fix: increment and decrement floats, and wrap integers
 around

---
 engine/src/command/impl/decrement.rs    |  8 +--
 engine/src/command/impl/decrement_by.rs | 22 ++++---
 engine/src/command/impl/increment.rs    |  8 +--
 engine/src/command/impl/increment_by.rs | 76 +++++++++++++------------
 4 files changed, 60 insertions(+), 54 deletions(-)

diff --git a/engine/src/command/impl/decrement.rs b/engine/src/command/impl/decrement.rs
index 7056129..846c0b1 100644
--- a/engine/src/command/impl/decrement.rs
+++ b/engine/src/command/impl/decrement.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::{state::KeyType, Hop};
+use crate::Hop;
 use alloc::vec::Vec;
 
 pub struct Decrement;
@@ -11,11 +11,7 @@ impl Dispatch for Decrement {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
-            IncrementBy::increment_float_by(hop, key, -1f64, resp)
-        } else {
-            IncrementBy::increment_int_by(hop, key, -1, resp)
-        }
+        IncrementBy::increment_by(hop, key, req.key_type(), -1, -1f64, resp)
     }
 }
 
diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..e6d7e70 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -11,13 +11,21 @@ impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
-            IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
-        } else {
-            Err(DispatchError::ArgumentRetrieval)
-        }
+        let int = req
+            .typed_arg::<i64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+        let float = req
+            .typed_arg::<f64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+
+        IncrementBy::increment_by(
+            hop,
+            key,
+            req.key_type(),
+            int.wrapping_neg(),
+            0f64 - float,
+            resp,
+        )
     }
 }
 
diff --git a/engine/src/command/impl/increment.rs b/engine/src/command/impl/increment.rs
index 1971901..f2091de 100644
--- a/engine/src/command/impl/increment.rs
+++ b/engine/src/command/impl/increment.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::{state::KeyType, Hop};
+use crate::Hop;
 use alloc::vec::Vec;
 
 pub struct Increment;
@@ -11,11 +11,7 @@ impl Dispatch for Increment {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
-            IncrementBy::increment_float_by(hop, key, 1f64, resp)
-        } else {
-            IncrementBy::increment_int_by(hop, key, 1, resp)
-        }
+        IncrementBy::increment_by(hop, key, req.key_type(), 1, 1f64, resp)
     }
 }
 
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..bd4597c 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,40 +1,46 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
 
 impl IncrementBy {
-    pub fn increment_float_by(
+    /// Increment a key by the amount of its type.
+    ///
+    /// If a key type isn't given then it's the one of the existing value.
+    pub fn increment_by(
         hop: &Hop,
         key: &[u8],
-        amount: f64,
+        key_type: Option<KeyType>,
+        int_amount: i64,
+        float_amount: f64,
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float += amount;
-
-        response::write_float(resp, *float);
-
-        Ok(())
-    }
-
-    pub fn increment_int_by(
-        hop: &Hop,
-        key: &[u8],
-        amount: i64,
-        resp: &mut Vec<u8>,
-    ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int += amount;
-
-        response::write_int(resp, *int);
+        let is_float = key_type == Some(KeyType::Float);
+        let mut key = hop.state().key_or_insert_with(key, || {
+            if is_float {
+                Value::float()
+            } else {
+                Value::integer()
+            }
+        });
+
+        match key.value_mut() {
+            Value::Float(float) if is_float || key_type.is_none() => {
+                *float += float_amount;
+
+                response::write_float(resp, *float);
+            }
+            Value::Integer(int) if !is_float => {
+                *int = int.wrapping_add(int_amount);
+
+                response::write_int(resp, *int);
+            }
+            _ => return Err(DispatchError::KeyTypeDifferent),
+        }
 
         Ok(())
     }
@@ -43,14 +49,14 @@ impl IncrementBy {
 impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
-
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
-            Self::increment_float_by(hop, key, float, resp)
-        } else {
-            Err(DispatchError::ArgumentRetrieval)
-        }
+        let int = req
+            .typed_arg::<i64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+        let float = req
+            .typed_arg::<f64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+
+        Self::increment_by(hop, key, req.key_type(), int, float, resp)
     }
 }
 
-- 
2.43.0


From 72ea2dec36a19dc68d49f6196cf68c45114f47ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 08/19] fix: append, length and keys decide on a key's type
 while holding it

---
 engine/src/command/impl/append.rs | 81 +++++++++++++++-----------
 engine/src/command/impl/keys.rs   | 41 ++++++-------
 engine/src/command/impl/length.rs | 96 +++++++++----------------------
 3 files changed, 95 insertions(+), 123 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index ca7a76f..c5fdc76 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -5,17 +5,13 @@ use crate::{
     state::{KeyType, Value},
     Hop,
 };
-use alloc::borrow::ToOwned;
-use alloc::vec::Vec;
+use alloc::{borrow::ToOwned, string::String, vec::Vec};
 use core::str;
 
 pub struct Append;
 
 impl Append {
-    fn bytes(hop: &Hop, args: Arguments<'_>, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
+    fn bytes(bytes: &mut Vec<u8>, args: Arguments<'_>, resp: &mut Vec<u8>) -> DispatchResult<()> {
         for arg in args {
             bytes.extend_from_slice(arg);
         }
@@ -25,51 +21,68 @@ impl Append {
         Ok(())
     }
 
-    fn list(hop: &Hop, args: Arguments<'_>, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
+    fn list(
+        list: &mut Vec<Vec<u8>>,
+        args: Arguments<'_>,
+        resp: &mut Vec<u8>,
+    ) -> DispatchResult<()> {
+        let mut items: Vec<Vec<u8>> = args.map(ToOwned::to_owned).collect();
+
+        // Responses can only contain lists of up to u16 items.
+        if list.len() + items.len() > u16::MAX as usize {
+            return Err(DispatchError::PreconditionFailed);
+        }
 
-        list.append(&mut args.map(ToOwned::to_owned).collect());
+        list.append(&mut items);
 
         response::write_list(resp, list.iter());
 
         Ok(())
     }
 
-    fn string(
-        hop: &Hop,
-        args: Arguments<'_>,
-        resp: &mut Vec<u8>,
-        key: &[u8],
-    ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        for arg in args {
-            if let Ok(arg) = str::from_utf8(arg) {
-                string.push_str(arg);
-            }
-        }
+    fn string(string: &mut String, args: Arguments<'_>, resp: &mut Vec<u8>) -> DispatchResult<()> {
+        string.push_str(&Self::joined(args)?);
 
-        response::write_str(resp, &string);
+        response::write_str(resp, string);
 
         Ok(())
     }
+
+    fn joined(args: Arguments<'_>) -> DispatchResult<String> {
+        args.map(str::from_utf8)
+            .collect::<Result<String, _>>()
+            .map_err(|_| DispatchError::ArgumentRetrieval)
+    }
 }
 
 impl Dispatch for Append {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Bytes);
-
-        match key_type {
-            KeyType::Bytes => Self::bytes(hop, args, resp, key),
-            KeyType::List => Self::list(hop, args, resp, key),
-            KeyType::String => Self::string(hop, args, resp, key),
+
+        let default = match req.key_type() {
+            Some(KeyType::Bytes) | None => Value::bytes,
+            Some(KeyType::List) => Value::list,
+            Some(KeyType::String) => {
+                // The key can't be created if there's nothing valid to append.
+                let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
+                Self::joined(args)?;
+
+                Value::string
+            }
+            _ => return Err(DispatchError::KeyTypeDifferent),
+        };
+
+        let mut value = hop.state().key_or_insert_with(key, default);
+
+        if req.key_type().map_or(false, |kind| kind != value.kind()) {
+            return Err(DispatchError::KeyTypeDifferent);
+        }
+
+        match value.value_mut() {
+            Value::Bytes(bytes) => Self::bytes(bytes, args, resp),
+            Value::List(list) => Self::list(list, args, resp),
+            Value::String(string) => Self::string(string, args, resp),
             _ => Err(DispatchError::KeyTypeDifferent),
         }
     }
diff --git a/engine/src/command/impl/keys.rs b/engine/src/command/impl/keys.rs
index bfc3ff7..44565b2 100644
--- a/engine/src/command/impl/keys.rs
+++ b/engine/src/command/impl/keys.rs
@@ -1,34 +1,35 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::KeyType, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct Keys;
 
-impl Keys {
-    fn map(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
+impl Dispatch for Keys {
+    fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let key_type = req.key_type();
+
+        if key_type.map_or(false, |kind| kind != KeyType::Map) {
+            return Err(DispatchError::KeyTypeInvalid);
+        }
+
+        let value = hop
             .state()
             .key_ref(key)
             .ok_or(DispatchError::KeyNonexistent)?;
-        let map = key.as_map_ref().ok_or(DispatchError::KeyTypeDifferent)?;
-        let iter = map.iter().map(|r| r.key().to_vec());
 
-        response::write_list(resp, iter);
+        match value.value() {
+            Value::Map(map) => {
+                let iter = map.iter().map(|r| r.key().to_vec());
 
-        Ok(())
-    }
-}
-
-impl Dispatch for Keys {
-    fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Map);
+                response::write_list(resp, iter);
 
-        match key_type {
-            KeyType::Map => Self::map(hop, key, resp),
+                Ok(())
+            }
+            _ if key_type.is_some() => Err(DispatchError::KeyTypeDifferent),
             _ => Err(DispatchError::KeyTypeInvalid),
         }
     }
diff --git a/engine/src/command/impl/length.rs b/engine/src/command/impl/length.rs
index f68781b..0896496 100644
--- a/engine/src/command/impl/length.rs
+++ b/engine/src/command/impl/length.rs
@@ -1,90 +1,48 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::KeyType, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct Length;
 
-impl Length {
-    fn bytes(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
-        let bytes = key.as_bytes_ref().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_int(resp, bytes.len() as i64);
-
-        Ok(())
-    }
-
-    fn list(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
-        let list = key.as_list_ref().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_int(resp, list.len() as i64);
-
-        Ok(())
-    }
-
-    fn map(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
-        let map = key.as_map_ref().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_int(resp, map.len() as i64);
+impl Dispatch for Length {
+    fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let key_type = req.key_type();
 
-        Ok(())
-    }
+        match key_type {
+            Some(KeyType::Boolean) | Some(KeyType::Float) | Some(KeyType::Integer) => {
+                return Err(DispatchError::KeyTypeInvalid);
+            }
+            _ => {}
+        }
 
-    fn set(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
+        let value = hop
             .state()
             .key_ref(key)
             .ok_or(DispatchError::KeyNonexistent)?;
-        let set = key.as_set_ref().ok_or(DispatchError::KeyTypeDifferent)?;
 
-        response::write_int(resp, set.len() as i64);
+        if key_type.map_or(false, |kind| kind != value.kind()) {
+            return Err(DispatchError::KeyTypeDifferent);
+        }
 
-        Ok(())
-    }
+        let len = match value.value() {
+            Value::Bytes(bytes) => bytes.len(),
+            Value::List(list) => list.len(),
+            Value::Map(map) => map.len(),
+            Value::Set(set) => set.len(),
+            Value::String(string) => string.chars().count(),
+            _ => return Err(DispatchError::KeyTypeInvalid),
+        };
 
-    fn string(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
-        let string = key.as_string_ref().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_int(resp, string.chars().count() as i64);
+        response::write_int(resp, len as i64);
 
         Ok(())
     }
 }
 
-impl Dispatch for Length {
-    fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Bytes);
-
-        match key_type {
-            KeyType::Bytes => Self::bytes(hop, key, resp),
-            KeyType::List => Self::list(hop, key, resp),
-            KeyType::Map => Self::map(hop, key, resp),
-            KeyType::Set => Self::set(hop, key, resp),
-            KeyType::String => Self::string(hop, key, resp),
-            _ => Err(DispatchError::KeyTypeInvalid),
-        }
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::Length;
-- 
2.43.0


From 0046511f74b34bbd3e1827b6c0ecf6ecfa9067cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 09/19] fix: rename atomically and refuse empty and reserved
 keys for every command

---
 engine/src/hop.rs | 59 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/engine/src/hop.rs b/engine/src/hop.rs
index 9d9e27e..ef62047 100644
--- a/engine/src/hop.rs
+++ b/engine/src/hop.rs
@@ -10,13 +10,17 @@
 //! [`Hop`]: struct.Hop.html
 
 use crate::{
-    command::{r#impl::*, CommandId, Dispatch, DispatchResult, Request},
+    command::{
+        command_id::KeyNotation, r#impl::*, CommandId, Dispatch, DispatchError, DispatchResult,
+        Request,
+    },
     metrics::{Metric, Metrics, Reader, Writer},
     pubsub::PubSubManager,
     session::SessionManager,
     state::State,
 };
 use alloc::{sync::Arc, vec::Vec};
+use dashmap::lock::RwLock;
 
 /// Configuration defining how a Hop engine will operate.
 ///
@@ -124,6 +128,7 @@ pub(crate) struct HopRef {
     metrics: Metrics,
     pub(crate) metrics_writer: Writer,
     pubsub: PubSubManager,
+    rename_lock: RwLock<()>,
     sessions: SessionManager,
     state: State,
 }
@@ -138,6 +143,7 @@ impl Default for HopRef {
             metrics,
             metrics_writer: writer.clone(),
             pubsub: PubSubManager::default(),
+            rename_lock: RwLock::default(),
             sessions: SessionManager::new(writer),
             state: State::default(),
         }
@@ -168,7 +174,29 @@ impl Hop {
     /// Dispatch a request to the engine, providing a response to write the
     /// response to on success.
     pub fn dispatch(&self, req: &Request, res: &mut Vec<u8>) -> DispatchResult<()> {
-        let res = match req.command_id() {
+        let res = self.dispatch_command(req, res);
+
+        self.0.metrics_writer.increment(if res.is_ok() {
+            Metric::CommandsSuccessful
+        } else {
+            Metric::CommandsErrored
+        });
+
+        res
+    }
+
+    fn dispatch_command(&self, req: &Request, res: &mut Vec<u8>) -> DispatchResult<()> {
+        Self::validate_keys(req)?;
+
+        // Renaming affects two keys at once, which no other command may observe
+        // only one of.
+        let (_shared, _exclusive) = if req.command_id() == CommandId::Rename {
+            (None, Some(self.0.rename_lock.write()))
+        } else {
+            (Some(self.0.rename_lock.read()), None)
+        };
+
+        match req.command_id() {
             CommandId::Append => Append::dispatch(self, req, res),
             CommandId::DecrementBy => DecrementBy::dispatch(self, req, res),
             CommandId::Decrement => Decrement::dispatch(self, req, res),
@@ -185,15 +213,30 @@ impl Hop {
             CommandId::Stats => Stats::dispatch(self, req, res),
             CommandId::Type => Type::dispatch(self, req, res),
             CommandId::Length => Length::dispatch(self, req, res),
+        }
+    }
+
+    /// Check that all of a request's keys are valid: they can't be empty or in
+    /// the namespace reserved for internal keys.
+    fn validate_keys(req: &Request) -> DispatchResult<()> {
+        let amount = match req.command_id().key_notation() {
+            KeyNotation::None => 0,
+            KeyNotation::One => 1,
+            KeyNotation::Two => 2,
+            KeyNotation::Multiple => req.arg_count(),
         };
 
-        self.0.metrics_writer.increment(if res.is_ok() {
-            Metric::CommandsSuccessful
-        } else {
-            Metric::CommandsErrored
-        });
+        for key in (0..amount).filter_map(|idx| req.arg(idx)) {
+            if key.is_empty() {
+                return Err(DispatchError::KeyUnspecified);
+            }
 
-        res
+            if key.starts_with(b"__hop__:") {
+                return Err(DispatchError::PreconditionFailed);
+            }
+        }
+
+        Ok(())
     }
 
     /// Return an immutable reference to the configuration.
-- 
2.43.0


From 676b75c6cd641e9b088712bc2c25055b55d6c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 10/19] fix: give every session its own identifier and count
 ended sessions

---
 engine/src/command/impl/stats.rs |  1 +
 engine/src/session/manager.rs    | 19 +++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..9219639 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,9 +27,10 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let session = Session::new(client_token, self.next_id());
+        let id = self.next_id();
+        let session = Session::new(client_token, id);
 
-        let value = match self.0.sessions.entry(self.next_id()) {
+        let value = match self.0.sessions.entry(id) {
             Entry::Occupied(_) => {
                 unreachable!();
             }
@@ -38,19 +39,21 @@ impl SessionManager {
 
         self.0.metrics_writer.increment(Metric::SessionsStarted);
 
-        self.0
-            .next_id
-            .store(self.next_id().wrapping_add(1), Ordering::SeqCst);
-
         value
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 
     fn next_id(&self) -> u32 {
-        self.0.next_id.load(Ordering::SeqCst)
+        self.0.next_id.fetch_add(1, Ordering::SeqCst)
     }
 }
 
-- 
2.43.0


From db9693c500755727e2c8d12c0a5d287b7078463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 11/19] fix: keep both sides of the subscription registry the
 same

---
 engine/src/pubsub/manager.rs | 73 ++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..a9177ae 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
@@ -56,37 +54,46 @@ impl PubSubManager {
     /// Returns whether unsubscribing was successful. This will only be
     /// unsuccessful if the session wasn't subscribed to the key.
     pub fn unsubscribe(&self, object_key: &[u8], session_id: SessionId) -> bool {
-        let key_unsubbed = self
-            .0
-            .keys
-            .get(object_key)
-            .and_then(|sessions| sessions.remove(&session_id))
-            .is_some();
-        let session_unsubbed = self
-            .0
-            .sessions
-            .get(&session_id)
-            .and_then(|keys| keys.remove(object_key))
-            .is_some();
-
-        // Really either both of these should be true or both false, but we'll
-        // handle state inconsistencies elsewhere...
-        key_unsubbed || session_unsubbed
+        // The session's entry is always held before accessing the one of a key,
+        // so that both of them are changed together.
+        let session = match self.0.sessions.get(&session_id) {
+            Some(session) => session,
+            None => return false,
+        };
+
+        if session.remove(object_key).is_none() {
+            return false;
+        }
+
+        if let Some(sessions) = self.0.keys.get(object_key) {
+            sessions.remove(&session_id);
+        }
+
+        true
     }
 
     /// Unsubscribes a session from all of its subscriptions.
     ///
     /// Returns whether the session was subscribed to any channels.
     pub fn remove_session(&self, session_id: SessionId) -> bool {
-        self.0
-            .sessions
-            .remove(&session_id)
-            .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
-                    sub.close();
-                }
-            })
-            .is_some()
+        let session = match self.0.sessions.entry(session_id) {
+            Entry::Occupied(session) => session,
+            Entry::Vacant(_) => return false,
+        };
+
+        let subscribed = !session.get().is_empty();
+
+        for sub in session.get().iter() {
+            if let Some(sessions) = self.0.keys.get(sub.key()) {
+                sessions.remove(&session_id);
+            }
+
+            sub.close();
+        }
+
+        session.remove();
+
+        subscribed
     }
 }
 
-- 
2.43.0


From b313e0befb530e60ad9f790bf0829b0e70260a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 12/19] fix: the server answers every request however its bytes
 arrive and survives connection errors

---
 server/src/main.rs | 72 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..47777f1 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,7 +14,7 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
@@ -61,15 +61,29 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(socket) = incoming.next().await {
+        match socket {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            // This is about the one connection that couldn't be accepted, others
+            // still can be.
+            Err(why) => warn!("Failed to accept a connection: {:?}", why),
+        }
     }
 
     Ok(())
 }
 
 async fn handle_socket(socket: TcpStream, hop: Hop) {
-    let addr = socket.peer_addr().unwrap();
+    let addr = match socket.peer_addr() {
+        Ok(addr) => addr,
+        Err(why) => {
+            warn!("Dropping a connection without a peer: {:?}", why);
+
+            return;
+        }
+    };
 
     log::debug!("Connected to peer {}", addr);
 
@@ -80,39 +94,55 @@ async fn handle_socket(socket: TcpStream, hop: Hop) {
 }
 
 async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn Error>> {
+    let mut chunk = [0; 1024];
     let mut input = Vec::new();
     let mut ctx = Context::new();
 
-    let (reader, mut writer) = socket.into_split();
-    let mut reader = BufReader::new(reader);
+    let (mut reader, mut writer) = socket.into_split();
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    loop {
+        let size = reader.read(&mut chunk).await?;
+
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        input.extend_from_slice(&chunk[..size]);
+
+        // There may be any number of requests in the input, of which the last
+        // one may be incomplete.
+        let mut used = 0;
+
+        loop {
+            match ctx.feed(&input[used..]) {
+                Ok(Some(req)) => {
+                    if let Err(why) = hop.dispatch(&req, &mut resp) {
+                        let res = Response::DispatchError(why);
+
+                        res.copy_to(&mut resp);
+                    }
+
+                    used += req.as_bytes().len();
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
-                }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
+                    writer.write_all(&resp).await?;
 
-                res.copy_to(&mut resp);
+                    // There's no telling where the next request would start.
+                    return Ok(());
+                }
             }
-        };
 
-        writer.write_all(&resp).await?;
-        resp.clear();
-        input.clear();
+            writer.write_all(&resp).await?;
+            resp.clear();
+        }
+
+        input.drain(..used);
     }
 
     Ok(())
-- 
2.43.0


From 750bae79a4ef7f4230abca318b9bffaa7ff89865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 13/19] fix: a networked request gets its own response or an
 error

---
 client/src/backend/server.rs | 72 +++++++++++++++++++++++-------------
 client/src/lib.rs            |  2 +-
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..abcf524 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -94,10 +94,21 @@ impl From<RequestBuilderError> for Error {
     }
 }
 
+#[derive(Debug)]
+struct Connection {
+    /// Whether a request has been started and its response hasn't been read yet.
+    ///
+    /// If this is the case once the connection is available then that exchange
+    /// failed or was cancelled, and what the connection will read next doesn't
+    /// belong to the next request.
+    in_exchange: bool,
+    reader: BufReader<OwnedReadHalf>,
+    writer: OwnedWriteHalf,
+}
+
 #[derive(Debug)]
 pub struct ServerBackend {
-    reader: Mutex<BufReader<OwnedReadHalf>>,
-    writer: Mutex<OwnedWriteHalf>,
+    connection: Mutex<Connection>,
 }
 
 impl ServerBackend {
@@ -109,44 +120,55 @@ impl ServerBackend {
         let (reader, writer) = stream.into_split();
 
         Ok(Self {
-            reader: Mutex::new(BufReader::new(reader)),
-            writer: Mutex::new(writer),
+            connection: Mutex::new(Connection {
+                in_exchange: false,
+                reader: BufReader::new(reader),
+                writer,
+            }),
         })
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        self.writer
-            .lock()
-            .await
+        // The connection is held until the response has been read, so responses
+        // can't be read by other requests.
+        let mut connection = self.connection.lock().await;
+
+        if connection.in_exchange {
+            return Err(Error::ConnectionClosed);
+        }
+
+        connection.in_exchange = true;
+
+        connection
+            .writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
-
-        let mut reader = self.reader.lock().await;
+        let mut resp = Vec::new();
 
         loop {
-            let read_amount = reader
-                .read_exact(&mut resp)
-                .await
-                .map_err(|source| Error::ReadingMessage { source })?;
-
-            if read_amount == 0 {
-                return Err(Error::ConnectionClosed);
-            }
-
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
+                    connection.in_exchange = false;
+
                     return match response {
                         Response::Value(value) => Ok(value),
                         Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
                         Response::ParseError(reason) => Err(Error::BadRequest { reason }),
-                    }
+                    };
                 }
-                Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                Instruction::ReadBytes(amount) => {
+                    let read_amount = (&mut connection.reader)
+                        .take(amount as u64)
+                        .read_to_end(&mut resp)
+                        .await
+                        .map_err(|source| Error::ReadingMessage { source })?;
+
+                    if read_amount < amount {
+                        return Err(Error::ConnectionClosed);
+                    }
                 }
             }
         }
@@ -287,8 +309,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0


From 6fe6ea57784e8d5b28d37047132b3fed4659c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 14/19] fix: typed requests of keys with another type are an
 error instead of a panic

---
 client/src/backend/mod.rs                       | 7 +++++--
 client/src/backend/server.rs                    | 6 ++++++
 client/src/request/append/append_bytes.rs       | 4 ++--
 client/src/request/append/append_list.rs        | 4 ++--
 client/src/request/append/append_string.rs      | 4 ++--
 client/src/request/decrement/decrement_float.rs | 4 ++--
 client/src/request/decrement/decrement_int.rs   | 4 ++--
 client/src/request/get/get_boolean.rs           | 4 ++--
 client/src/request/get/get_bytes.rs             | 4 ++--
 client/src/request/get/get_float.rs             | 4 ++--
 client/src/request/get/get_integer.rs           | 4 ++--
 client/src/request/get/get_list.rs              | 4 ++--
 client/src/request/get/get_map.rs               | 4 ++--
 client/src/request/get/get_set.rs               | 4 ++--
 client/src/request/get/get_string.rs            | 4 ++--
 client/src/request/increment/increment_float.rs | 4 ++--
 client/src/request/increment/increment_int.rs   | 4 ++--
 client/src/request/set/set_boolean.rs           | 4 ++--
 client/src/request/set/set_bytes.rs             | 4 ++--
 client/src/request/set/set_float.rs             | 4 ++--
 client/src/request/set/set_integer.rs           | 4 ++--
 client/src/request/set/set_list.rs              | 4 ++--
 client/src/request/set/set_map.rs               | 4 ++--
 client/src/request/set/set_set.rs               | 4 ++--
 client/src/request/set/set_string.rs            | 4 ++--
 25 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/client/src/backend/mod.rs b/client/src/backend/mod.rs
index df98f63..e0cf663 100644
--- a/client/src/backend/mod.rs
+++ b/client/src/backend/mod.rs
@@ -11,11 +11,14 @@ pub use self::server::ServerBackend;
 use crate::model::StatsData;
 use alloc::{boxed::Box, vec::Vec};
 use async_trait::async_trait;
-use hop_engine::state::{KeyType, Value};
+use hop_engine::{
+    command::DispatchError,
+    state::{KeyType, Value},
+};
 
 #[async_trait]
 pub trait Backend: Send + Sync {
-    type Error;
+    type Error: From<DispatchError>;
 
     async fn append<T: Into<Value> + Send>(
         &self,
diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index abcf524..db4e424 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -88,6 +88,12 @@ impl StdError for Error {
     }
 }
 
+impl From<DispatchError> for Error {
+    fn from(reason: DispatchError) -> Self {
+        Self::Dispatching { reason }
+    }
+}
+
 impl From<RequestBuilderError> for Error {
     fn from(source: RequestBuilderError) -> Self {
         Self::BuildingRequest { source }
diff --git a/client/src/request/append/append_bytes.rs b/client/src/request/append/append_bytes.rs
index ad7c2d9..1b30a1b 100644
--- a/client/src/request/append/append_bytes.rs
+++ b/client/src/request/append/append_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to bytes when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/append/append_list.rs b/client/src/request/append/append_list.rs
index 9b68b92..148d63a 100644
--- a/client/src/request/append/append_list.rs
+++ b/client/src/request/append/append_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to bytes when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::List(list) => Ok(list),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/append/append_string.rs b/client/src/request/append/append_string.rs
index 9f710e6..cf2c596 100644
--- a/client/src/request/append/append_string.rs
+++ b/client/src/request/append/append_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to bytes when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::String(string) => Ok(string),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/decrement/decrement_float.rs b/client/src/request/decrement/decrement_float.rs
index 3180d1f..37de68b 100644
--- a/client/src/request/decrement/decrement_float.rs
+++ b/client/src/request/decrement/decrement_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -54,7 +54,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Float(float) => Ok(float),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/decrement/decrement_int.rs b/client/src/request/decrement/decrement_int.rs
index 75b33f1..4262b07 100644
--- a/client/src/request/decrement/decrement_int.rs
+++ b/client/src/request/decrement/decrement_int.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -54,7 +54,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Integer(int) => Ok(int),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_boolean.rs b/client/src/request/get/get_boolean.rs
index 9a18fa9..7c673d5 100644
--- a/client/src/request/get/get_boolean.rs
+++ b/client/src/request/get/get_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a boolean when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_bytes.rs b/client/src/request/get/get_bytes.rs
index 1d7622f..701c7d7 100644
--- a/client/src/request/get/get_bytes.rs
+++ b/client/src/request/get/get_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to bytes when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_float.rs b/client/src/request/get/get_float.rs
index 512960e..cca540b 100644
--- a/client/src/request/get/get_float.rs
+++ b/client/src/request/get/get_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Float(float) => Ok(float),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_integer.rs b/client/src/request/get/get_integer.rs
index 18e1af2..8579a06 100644
--- a/client/src/request/get/get_integer.rs
+++ b/client/src/request/get/get_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to an integer when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Integer(int) => Ok(int),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_list.rs b/client/src/request/get/get_list.rs
index b4a6fe3..8a8a302 100644
--- a/client/src/request/get/get_list.rs
+++ b/client/src/request/get/get_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a list when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::List(list) => Ok(list),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_map.rs b/client/src/request/get/get_map.rs
index 4641c57..8afeec1 100644
--- a/client/src/request/get/get_map.rs
+++ b/client/src/request/get/get_map.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{command::DispatchError, dashmap::DashMap, state::Value};
 
 /// A configured `get` command that will resolve to a map when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Map(map) => Ok(map),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_set.rs b/client/src/request/get/get_set.rs
index 91037c4..4af8da6 100644
--- a/client/src/request/get/get_set.rs
+++ b/client/src/request/get/get_set.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashSet, state::Value};
+use hop_engine::{command::DispatchError, dashmap::DashSet, state::Value};
 
 /// A configured `get` command that will resolve to a set when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Set(set) => Ok(set),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/get/get_string.rs b/client/src/request/get/get_string.rs
index 02ffc62..fc84d56 100644
--- a/client/src/request/get/get_string.rs
+++ b/client/src/request/get/get_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a string when `await`ed.
 ///
@@ -45,7 +45,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::String(string) => Ok(string),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/increment/increment_float.rs b/client/src/request/increment/increment_float.rs
index f12de41..10977e9 100644
--- a/client/src/request/increment/increment_float.rs
+++ b/client/src/request/increment/increment_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -54,7 +54,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Float(float) => Ok(float),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/increment/increment_int.rs b/client/src/request/increment/increment_int.rs
index 09dc9bc..04bf864 100644
--- a/client/src/request/increment/increment_int.rs
+++ b/client/src/request/increment/increment_int.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -54,7 +54,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Integer(int) => Ok(int),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_boolean.rs b/client/src/request/set/set_boolean.rs
index fbe4517..d5d548b 100644
--- a/client/src/request/set/set_boolean.rs
+++ b/client/src/request/set/set_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to a boolean when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_bytes.rs b/client/src/request/set/set_bytes.rs
index b9506bc..fe2d25b 100644
--- a/client/src/request/set/set_bytes.rs
+++ b/client/src/request/set/set_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to bytes when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_float.rs b/client/src/request/set/set_float.rs
index 7f1222e..6d118d8 100644
--- a/client/src/request/set/set_float.rs
+++ b/client/src/request/set/set_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to a float when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Float(float) => Ok(float),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_integer.rs b/client/src/request/set/set_integer.rs
index af13db2..3f466ed 100644
--- a/client/src/request/set/set_integer.rs
+++ b/client/src/request/set/set_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to an integer when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Integer(int) => Ok(int),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_list.rs b/client/src/request/set/set_list.rs
index 8ad0ec9..7efc70c 100644
--- a/client/src/request/set/set_list.rs
+++ b/client/src/request/set/set_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to a list when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::List(list) => Ok(list),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_map.rs b/client/src/request/set/set_map.rs
index b2efcd8..21bf668 100644
--- a/client/src/request/set/set_map.rs
+++ b/client/src/request/set/set_map.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{command::DispatchError, dashmap::DashMap, state::Value};
 
 /// A configured `set` command that will resolve to a map when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Map(map) => Ok(map),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_set.rs b/client/src/request/set/set_set.rs
index ad2bc62..67485a2 100644
--- a/client/src/request/set/set_set.rs
+++ b/client/src/request/set/set_set.rs
@@ -7,7 +7,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to a set when `await`ed.
 ///
@@ -51,7 +51,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::Set(set) => Ok(set.into_iter().collect()),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
diff --git a/client/src/request/set/set_string.rs b/client/src/request/set/set_string.rs
index a356654..fbcafb7 100644
--- a/client/src/request/set/set_string.rs
+++ b/client/src/request/set/set_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::{command::DispatchError, state::Value};
 
 /// A configured `set` command that will resolve to a string when `await`ed.
 ///
@@ -48,7 +48,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
                 match value {
                     Value::String(string) => Ok(string),
-                    _ => unreachable!(),
+                    _ => Err(DispatchError::KeyTypeDifferent.into()),
                 }
             }));
         }
-- 
2.43.0


From 884c05049d26f59d7836aec2c56c36a91017b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:58 +0000
Subject: [PATCH 15/19] fix: the timer tolerates clocks that run backwards or
 fail

---
 lib/timer/src/lib.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/lib/timer/src/lib.rs b/lib/timer/src/lib.rs
index c6744d3..eb052dc 100644
--- a/lib/timer/src/lib.rs
+++ b/lib/timer/src/lib.rs
@@ -95,7 +95,7 @@ impl Timer {
     /// Starts the timer.
     ///
     /// Returns whether the timer was started. This only returns `false` if the
-    /// timer was already started.
+    /// timer was already started or the clock can't be read.
     ///
     /// # Examples
     ///
@@ -114,15 +114,16 @@ impl Timer {
         if self.start.is_some() {
             false
         } else {
-            self.start.replace(now());
+            self.start = try_now();
 
-            true
+            self.start.is_some()
         }
     }
 
     /// Stops the timer, returning the time that it took to drive to completion.
     ///
-    /// Returns `None` if the timer wasn't started or already finished.
+    /// Returns `None` if the timer wasn't started or already finished, or if the
+    /// clock can't be read.
     ///
     /// # Examples
     ///
@@ -147,7 +148,7 @@ impl Timer {
             return None;
         }
 
-        self.stop.replace(now());
+        self.stop = try_now();
 
         self.duration()
     }
@@ -158,6 +159,8 @@ impl Timer {
     /// times. If the timer was never started or never stopped, then `None` is
     /// returned.
     ///
+    /// The duration is 0 if the clock ran backwards.
+    ///
     /// # Examples
     ///
     /// Check the duration after stopping the timer:
@@ -174,7 +177,7 @@ impl Timer {
     /// # fn main() { try_main().unwrap(); }
     /// ```
     pub fn duration(&self) -> Option<Duration> {
-        Some(self.stop? - self.start?)
+        Some(self.stop?.checked_sub(self.start?).unwrap_or_default())
     }
 
     /// Determines whether the timer is currently running.
@@ -231,10 +234,13 @@ pub fn test_now() -> Duration {
 
 // We'll just slightly overload the usage of core's duration here. :) The
 // argument validating this can be that it's the duration since boot!
-fn now() -> Duration {
-    let timespec = monotonic_time();
+fn try_now() -> Option<Duration> {
+    monotonic_time().map(parse_timespec)
+}
 
-    parse_timespec(timespec)
+#[cfg(any(test, feature = "__internal_test"))]
+fn now() -> Duration {
+    try_now().unwrap_or_default()
 }
 
 fn parse_timespec(timespec: timespec) -> Duration {
@@ -252,17 +258,19 @@ fn parse_timespec(timespec: timespec) -> Duration {
     Duration::new(s, ns)
 }
 
-fn monotonic_time() -> timespec {
+fn monotonic_time() -> Option<timespec> {
     let mut timespec = timespec {
         tv_nsec: 0,
         tv_sec: 0,
     };
 
-    unsafe {
-        libc::clock_gettime(CLOCK_MONOTONIC, &mut timespec);
-    }
+    let result = unsafe { libc::clock_gettime(CLOCK_MONOTONIC, &mut timespec) };
 
-    timespec
+    if result == 0 {
+        Some(timespec)
+    } else {
+        None
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 15d836a5738ee336462f8e8cd610d6322cb6de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 16/19] fix: the command line client answers every line and
 ends at the end of its input

---
 cli/bin/src/main.rs    |  22 ++++--
 cli/lib/src/parse.rs   |   9 ++-
 cli/lib/src/print.rs   |   6 +-
 cli/lib/src/process.rs | 150 +++++++++++++++++++++++++++++++++++++++--
 4 files changed, 173 insertions(+), 14 deletions(-)

diff --git a/cli/bin/src/main.rs b/cli/bin/src/main.rs
index 4851b5b..ee67f18 100644
--- a/cli/bin/src/main.rs
+++ b/cli/bin/src/main.rs
@@ -3,7 +3,7 @@
 #![allow(clippy::multiple_crate_versions)]
 
 use hop::Client;
-use std::error::Error;
+use std::{error::Error, str};
 use tokio::{
     io::{self, AsyncBufReadExt, AsyncWrite, AsyncWriteExt, BufReader},
     runtime::Builder as RuntimeBuilder,
@@ -23,15 +23,27 @@ async fn run(
     mut writer: impl AsyncWrite + Unpin,
 ) -> Result<(), Box<dyn Error>> {
     let client = Client::memory();
-    let mut input = String::new();
+    let mut input = Vec::new();
 
     loop {
         writer.write_all(b"> ").await?;
         writer.flush().await?;
-        reader.read_line(&mut input).await?;
 
-        let mut output = hop_cli::process(&client, input.trim_end()).await?;
-        output.to_mut().push('\n');
+        // If we get no bytes then we're EOF.
+        if reader.read_until(b'\n', &mut input).await? == 0 {
+            return Ok(());
+        }
+
+        // What's wrong with a line is its answer, since other lines can still be
+        // fine.
+        let mut output = match str::from_utf8(&input) {
+            Ok(line) => match hop_cli::process(&client, line.trim_end()).await {
+                Ok(output) => output.into_owned(),
+                Err(why) => why.to_string(),
+            },
+            Err(why) => format!("failed to read input: {}", why),
+        };
+        output.push('\n');
 
         writer.write_all(output.as_bytes()).await?;
         input.clear();
diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..231845f 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -69,13 +69,12 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
         provided_name: cmd_name.to_owned(),
     })?;
 
-    let key_type = key_type.unwrap_or(KeyType::Bytes);
     let mut builder = RequestBuilder::new_with_key_type(cmd_id, key_type);
 
     let mut arg_iter = split.peekable();
 
     if arg_iter.peek().is_some() {
-        for arg in input_args(arg_iter, cmd_id, key_type)? {
+        for arg in input_args(arg_iter, cmd_id, key_type.unwrap_or(KeyType::Bytes))? {
             builder.bytes(arg)?;
         }
     }
@@ -159,7 +158,11 @@ fn input_args<'a>(
             KeyType::Map => {
                 let value = match iter.next() {
                     Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
+                    None => {
+                        return Err(ParseError::MapIncomplete {
+                            key: arg.to_owned(),
+                        })
+                    }
                 };
 
                 args.push(arg.as_bytes().to_vec());
diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..7a885f1 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -21,7 +21,8 @@ pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    // Each item ends with a newline, which the last one doesn't need.
+    output.pop();
 
     output
 }
@@ -36,7 +37,8 @@ pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    // Each item ends with a newline, which the last one doesn't need.
+    output.pop();
 
     output
 }
diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index d3b37ba..7b1c533 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -9,7 +9,10 @@ use hop::{
     request::CommandConfigurationError,
     Client,
 };
-use hop_engine::command::{CommandId, DispatchError, Request};
+use hop_engine::{
+    command::{CommandId, DispatchError, Request},
+    state::{KeyType, Value},
+};
 use std::error::Error;
 
 #[derive(Debug)]
@@ -208,10 +211,61 @@ where
     B::Error: Error,
 {
     match req.command_id() {
+        CommandId::Append => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let append = client.append(key);
+
+            let v = match req_value(&req)? {
+                Value::Bytes(bytes) => {
+                    Value::Bytes(append.bytes(bytes).await.map_err(backend_err)?)
+                }
+                Value::List(list) => Value::List(append.list(list).await.map_err(backend_err)?),
+                Value::String(string) => {
+                    Value::String(append.str(string).await.map_err(backend_err)?)
+                }
+                _ => return Err(InnerProcessError::KeyTypeInvalid),
+            };
+
+            Ok(print::value(v).into())
+        }
+        CommandId::DecrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let v = match req_value(&req)? {
+                Value::Float(amount) => Value::Float(
+                    client
+                        .decrement(key)
+                        .float()
+                        .by(amount)
+                        .await
+                        .map_err(backend_err)?,
+                ),
+                Value::Integer(amount) => Value::Integer(
+                    client
+                        .decrement(key)
+                        .int()
+                        .by(amount)
+                        .await
+                        .map_err(backend_err)?,
+                ),
+                _ => return Err(InnerProcessError::KeyTypeInvalid),
+            };
+
+            Ok(print::value(v).into())
+        }
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.decrement(key).await.map_err(backend_err)?;
+            let req_client = client.decrement(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => Value::Float(req_client.float().await.map_err(backend_err)?),
+                Some(KeyType::Integer) => {
+                    Value::Integer(req_client.int().await.map_err(backend_err)?)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => req_client.await.map_err(backend_err)?,
+            };
 
             Ok(print::value(v).into())
         }
@@ -262,12 +316,50 @@ where
 
             let value = client.get(key).await.map_err(backend_err)?;
 
+            if req.key_type().map_or(false, |kind| kind != value.kind()) {
+                return Err(InnerProcessError::KeyTypeDifferent);
+            }
+
             Ok(print::value(value).into())
         }
+        CommandId::IncrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let v = match req_value(&req)? {
+                Value::Float(amount) => Value::Float(
+                    client
+                        .increment(key)
+                        .float()
+                        .by(amount)
+                        .await
+                        .map_err(backend_err)?,
+                ),
+                Value::Integer(amount) => Value::Integer(
+                    client
+                        .increment(key)
+                        .int()
+                        .by(amount)
+                        .await
+                        .map_err(backend_err)?,
+                ),
+                _ => return Err(InnerProcessError::KeyTypeInvalid),
+            };
+
+            Ok(print::value(v).into())
+        }
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.increment(key).await.map_err(backend_err)?;
+            let req_client = client.increment(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => Value::Float(req_client.float().await.map_err(backend_err)?),
+                Some(KeyType::Integer) => {
+                    Value::Integer(req_client.int().await.map_err(backend_err)?)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => req_client.await.map_err(backend_err)?,
+            };
 
             Ok(print::value(v).into())
         }
@@ -291,6 +383,24 @@ where
 
             Ok(print_list(v).into())
         }
+        CommandId::Length => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let length = client.length(key);
+
+            let length = match req.key_type() {
+                Some(KeyType::Bytes) => length.bytes(),
+                Some(KeyType::List) => length.list(),
+                Some(KeyType::Map) => length.map(),
+                Some(KeyType::Set) => length.set(),
+                Some(KeyType::String) => length.str(),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => length,
+            };
+
+            let v = length.await.map_err(backend_err)?;
+
+            Ok(v.to_string().into())
+        }
         CommandId::Rename => {
             let from = req
                 .key()
@@ -303,6 +413,14 @@ where
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
         }
+        CommandId::Set => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let value = req_value(&req)?;
+
+            let v = client.set(key).value(value).await.map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Stats => {
             let stats = client.stats().await.map_err(backend_err)?;
 
@@ -329,10 +447,34 @@ where
 
             Ok(print::key_type_name(key_type).into())
         }
-        _ => panic!(),
     }
 }
 
+/// Retrieve the value that a request provides after its key, which are bytes if
+/// no key type is specified.
+fn req_value<B: Backend>(req: &Request<'_>) -> Result<Value, InnerProcessError<B>> {
+    if req.arg(1).is_none() {
+        return Err(InnerProcessError::TooFewArguments);
+    }
+
+    let value = match req.key_type().unwrap_or(KeyType::Bytes) {
+        KeyType::Boolean => req.typed_arg(1).map(Value::Boolean),
+        KeyType::Bytes => req.arg(1).map(|arg| Value::Bytes(arg.to_vec())),
+        KeyType::Float => req.typed_arg(1).map(Value::Float),
+        KeyType::Integer => req.typed_arg(1).map(Value::Integer),
+        KeyType::List => req
+            .args(1..)
+            .map(|args| Value::List(args.map(ToOwned::to_owned).collect())),
+        KeyType::Map => req.typed_args().map(Value::Map),
+        KeyType::Set => req.typed_args().map(Value::Set),
+        KeyType::String => req
+            .typed_arg::<&str>(1)
+            .map(|arg| Value::String(arg.to_owned())),
+    };
+
+    value.ok_or(InnerProcessError::TooFewArguments)
+}
+
 fn print_list(list: Vec<Vec<u8>>) -> String {
     list.into_iter()
         .map(|item| String::from_utf8_lossy(&item).into_owned())
-- 
2.43.0


From dfb0eb8f87d8f71a327f74a6469e2c39b2a60d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 17/19] fix: only strings are strings

---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From a7207787a5e7162a866a884edfbb2d0d7025fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:44 +0000
Subject: [PATCH 18/19] fix: the length of a request's arguments is that of the
 ones left

---
 engine/src/command/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..548d102 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -101,7 +101,7 @@ pub struct Arguments<'a> {
 
 impl ExactSizeIterator for Arguments<'_> {
     fn len(&self) -> usize {
-        self.to
+        self.to.min(self.request.arg_count()).saturating_sub(self.idx)
     }
 }
 
-- 
2.43.0


From 9b6081d1f062f959f2282918e1ebc5d2b288431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:45 +0000
Subject: [PATCH 19/19] fix: ended subscriptions left their keys and sessions
 in the registry

---
 engine/src/pubsub/manager.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index a9177ae..4161c0f 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -65,9 +65,14 @@ impl PubSubManager {
             return false;
         }
 
-        if let Some(sessions) = self.0.keys.get(object_key) {
-            sessions.remove(&session_id);
-        }
+        self.remove_from_key(object_key, session_id);
+
+        drop(session);
+
+        // The session may have been subscribed to another key in the meantime.
+        self.0
+            .sessions
+            .remove_if(&session_id, |_, subscriptions| subscriptions.is_empty());
 
         true
     }
@@ -84,9 +89,7 @@ impl PubSubManager {
         let subscribed = !session.get().is_empty();
 
         for sub in session.get().iter() {
-            if let Some(sessions) = self.0.keys.get(sub.key()) {
-                sessions.remove(&session_id);
-            }
+            self.remove_from_key(sub.key(), session_id);
 
             sub.close();
         }
@@ -95,6 +98,16 @@ impl PubSubManager {
 
         subscribed
     }
+
+    /// Removes a session from the ones subscribed to a key, and the key with the
+    /// last of them.
+    fn remove_from_key(&self, object_key: &[u8], session_id: SessionId) {
+        self.0.keys.remove_if(object_key, |_, sessions| {
+            sessions.remove(&session_id);
+
+            sessions.is_empty()
+        });
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0

