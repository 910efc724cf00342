From 08bb6aad520ccba9d631259b941d76b5de4490f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 01/15] fix: resolve recursion levels by the schema tree, not
 by the coding stack

After one recursion the coding stack is deeper than the schema tree, so a
second recursion whose level reaches above the point the first one led to
was resolved to the wrong schema (and one beyond the root could be let
through).
---
 binschema/src/coder/coder.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..3eed1c8 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -94,6 +94,10 @@ macro_rules! dbg_log_pop {
 #[derive(Debug, Clone)]
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
+    /// Index in the stack of the frame for the schema that is the parent of
+    /// `schema` in the schema tree. If `schema` was reached by recursion, this
+    /// is not the frame directly below. None if `schema` is the root.
+    parent: Option<usize>,
     api_state: ApiState,
 }
 
@@ -170,6 +174,7 @@ impl<'a> CoderState<'a> {
         let mut stack = alloc.into_stack();
         stack.push(StackFrame {
             schema,
+            parent: None,
             api_state: ApiState::Need,
         });
         CoderState {
@@ -298,6 +303,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -334,24 +340,34 @@ impl<'a> CoderState<'a> {
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
+        // recursion levels count layers of the schema tree, so climb the schema
+        // tree rather than the stack
+        let mut parent = self.stack.len().checked_sub(1);
         while let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
+            let mut target = parent;
+            for _ in 1..n {
+                match target {
+                    Some(i) => target = self.stack[i].parent,
+                    None => break,
+                }
+            }
+            let i = target
                 .ok_or_else(|| error!(
                     IllegalSchema,
                     Some(self),
-                    "recurse past base of stack",
+                    "recurse past root of schema",
                 ))
                 .do_if_err(|| self.broken = true)?;
             schema = self.stack[i].schema;
+            parent = self.stack[i].parent;
         }
         self.stack.push(StackFrame {
             schema,
+            parent,
             api_state: ApiState::Need,
         });
         Ok(())
@@ -378,6 +394,7 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -544,6 +561,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -618,6 +636,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -652,6 +671,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -700,6 +720,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -743,6 +764,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -799,6 +821,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -836,6 +859,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From e0e102cd68e8c9ced1b3313c82a8728d3f2b1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 02/15] fix: report malformed integers and enum ordinals as
 malformed data, not I/O errors

---
 binschema/src/var_len.rs | 46 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..acfd955 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,27 +1,19 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{
+    self,
+    error,
+    bail,
+    ensure,
+};
 use std::io::{
     Read,
     Write,
     Result,
-    Error,
-    ErrorKind,
 };
 
 
-macro_rules! ensure {
-    ($c:expr, $($e:tt)*)=>{
-        if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
-        }
-    };
-}
-
-
 /// Number of bytes needed to encode an ordinal based on max ordinal
 /// value.
 fn ord_byte_len(max_ord: usize) -> usize {
@@ -58,11 +50,16 @@ where
 pub fn read_ord<R>(
     read: &mut R,
     num_variants: usize,
-) -> Result<usize>
+) -> error::Result<usize>
 where
     R: Read,
 {
-    ensure!(num_variants > 0, "malformed data, presence of uninhabited enum");
+    ensure!(
+        num_variants > 0,
+        MalformedData,
+        None,
+        "presence of uninhabited enum",
+    );
     let mut all_bytes = [0; 8];
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &mut all_bytes[..byte_len];
@@ -70,7 +67,9 @@ where
     let ord = u64::from_le_bytes(all_bytes);
     ensure!(
         ord < num_variants as u64,
-        "malformed data, enum ordinal {} out of range 0..{}",
+        MalformedData,
+        None,
+        "enum ordinal {} out of range 0..{}",
         ord,
         num_variants,
     );
@@ -105,7 +104,7 @@ where
 /// Read a variable length unsigned int.
 pub fn read_var_len_uint<R>(
     read: &mut R,
-) -> Result<u128>
+) -> error::Result<u128>
 where
     R: Read,
 {
@@ -115,7 +114,9 @@ where
     while more {
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len uint",
+            MalformedData,
+            None,
+            "too many bytes in var len uint",
         );
 
         let mut buf = [0];
@@ -167,7 +168,7 @@ where
 /// Read a variable length signed int.
 pub fn read_var_len_sint<R>(
     read: &mut R,
-) -> Result<i128>
+) -> error::Result<i128>
 where
     R: Read,
 {
@@ -183,10 +184,11 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len sint",
+            MalformedData,
+            None,
+            "too many bytes in var len sint",
         );
 
         let mut buf = [0];
-- 
2.43.0


From 53b3d982d06644145b2a137597e5693f603edfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 03/15] fix: leave the decoder broken after an invalid char,
 bool or option byte

---
 binschema/src/decoder.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..b4dc493 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -176,12 +177,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         match n {
             0 => Ok(false),
             1 => Ok(true),
-            _ => Err(error!(
-                MalformedData,
-                Some(self.coder_state()),
-                "{} is not a valid bool",
-                n,
-            )),
+            _ => {
+                self.state.mark_broken();
+                Err(error!(
+                    MalformedData,
+                    Some(self.coder_state()),
+                    "{} is not a valid bool",
+                    n,
+                ))
+            }
         }
     }
 
@@ -274,12 +278,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    );
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 443f9effe49a610968c0aeec3866d743886123fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 04/15] fix: finishing a sequence early is an API usage error,
 not an assertion failure

---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 3eed1c8..663b33a 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -595,7 +595,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From e9b67e82dc9d0294ecb5a7fad688123a71e601f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 05/15] fix: encoding an enum variant of illegal recursion is
 an error, not an assertion failure

---
 binschema/src/coder/coder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 663b33a..c35990c 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -878,8 +878,10 @@ impl<'a> CoderState<'a> {
             need_variant_name,
         );
         dbg_log!(self, "variant name = {:?}", variant_name);
-        self.top().api_state = ApiState::AutoFinish;
+        // only change the state if successful, so that the enum can be cancelled
+        let enum_frame = self.stack.len() - 1;
         self.push_need(&variants[variant_ord].inner)?;
+        self.stack[enum_frame].api_state = ApiState::AutoFinish;
         Ok(())
     }
 
-- 
2.43.0


From 1900badeddf98d93a7ac1d1c61f88b48647121c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 06/15] fix: a root schema of recurse is an illegal schema
 error, not a panic

---
 binschema/src/coder/coder.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index c35990c..1ead0e6 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -223,6 +223,17 @@ macro_rules! validate_top {
                     &ApiState::AutoFinish => unreachable!("{:#?}", $self.stack),
                     &ApiState::OptionUninitSomeness => unreachable!(),
                     &ApiState::SeqUninitLen => unreachable!(),
+                    &ApiState::Need
+                        if matches!($top.schema, &Schema::Recurse(_)) =>
+                    {
+                        // only the root frame can have a recurse schema
+                        $self.broken = true;
+                        bail!(
+                            IllegalSchema,
+                            Some($self),
+                            "recurse past root of schema",
+                        );
+                    }
                     &ApiState::Need => bail!(
                         SchemaNonConformance,
                         Some($self),
@@ -391,6 +402,13 @@ impl<'a> CoderState<'a> {
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
         match self.stack.iter().rev().next() {
+            Some(&StackFrame {
+                schema: &Schema::Recurse(_),
+                api_state: ApiState::Need,
+                ..
+            }) => Err(error!(
+                IllegalSchema, Some(self), "recurse past root of schema"
+            )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
-- 
2.43.0


From 959ba29708476c4a7736ce5fb1afbcbd6724ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 07/15] fix: do not allocate for announced lengths before the
 content is there

---
 binschema/src/decoder.rs | 38 +++++++++++++++++++++++++-------------
 binschema/src/value.rs   |  8 ++++++--
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index b4dc493..b710ecf 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -20,9 +20,8 @@ use std::{
         size_of,
         take,
     },
-    io::Read,
+    io::{self, Read},
     borrow::BorrowMut,
-    iter::repeat,
 };
 
 
@@ -128,6 +127,27 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             .do_if_err(|| self.state.mark_broken())
     }
 
+    /// Append exactly `len` bytes to `buf`.
+    ///
+    /// Does not trust `len` for allocating up front, since it may come from
+    /// a malicious payload.
+    fn read_exactly_into(
+        &mut self,
+        len: usize,
+        buf: &mut Vec<u8>,
+    ) -> Result<()> {
+        (&mut *self.read)
+            .take(len as u64)
+            .read_to_end(buf)
+            .and_then(|n| if n == len {
+                Ok(())
+            } else {
+                Err(io::ErrorKind::UnexpectedEof.into())
+            })
+            .do_if_err(|| self.state.mark_broken())?;
+        Ok(())
+    }
+
     decode_le_bytes!(
         decode_u8(u8) code_u8,
         decode_u16(u16) code_u16,
@@ -208,17 +228,12 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
-            self.state.mark_broken();
+        if let Err(e) = self.read_exactly_into(len, &mut bbuf) {
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -254,10 +269,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
-        Ok(())
+        self.read_exactly_into(len, buf)
     }
 
     /// Decode a bytes into a new alloc.
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..43cb225 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -17,6 +17,10 @@ use std::io::{
 };
 
 
+/// Maximum number of elements to allocate space for up front when decoding a
+/// seq, since its length may come from a malicious payload.
+const MAX_PREALLOC: usize = 64;
+
 #[derive(Debug, Clone, PartialEq, PartialOrd)]
 pub enum Value {
     Scalar(ScalarValue),
@@ -132,7 +136,7 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::with_capacity(len.min(MAX_PREALLOC));
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +149,7 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::with_capacity(len.min(MAX_PREALLOC));
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0


From 2a9ea7020f70fd02dca6fe9c6de54ef8caa19b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 08/15] fix: finish empty sequences, tuples, maps and structs
 when deserializing

---
 binschema/src/serde/de.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..683bdf6 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,6 +81,14 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
+        // the visitor may never ask for an element
+        if len == 0 {
+            match seq_like {
+                SeqLike::Seq => self.finish_seq()?,
+                SeqLike::Tuple => self.finish_tuple()?,
+                SeqLike::Unit => (),
+            }
+        }
         v.visit_seq(SeqDecoder {
             decoder: self,
             remaining: len,
@@ -98,6 +106,9 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        if fields.is_empty() {
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +262,9 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        if len == 0 {
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
-- 
2.43.0


From 9c3fd8950ef2e9fdaf8953f89c8714e0a30392f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 09/15] fix: tell types apart by type ID in RecurseStack, not
 by function address

---
 binschema/src/known_schema.rs | 37 ++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..2b54424 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -19,8 +19,10 @@ use std::{
         Bound,
     },
     borrow::Cow,
-    any::type_name,
+    any::{TypeId, type_name},
     fmt::{self, Debug, Formatter},
+    marker::PhantomData,
+    mem::transmute,
 };
 
 
@@ -34,11 +36,33 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 
 #[derive(Copy, Clone)]
 struct Node<'a> {
-    val: Option<fn(RecurseStack) -> Schema>,
+    val: Option<TypeId>,
     dbg: &'static str,
     next: &'a Option<Node<'a>>,
 }
 
+/// `TypeId::of`, but for types which aren't necessarily `'static`. Types which
+/// only differ in lifetimes are given the same ID, like they share a schema.
+fn type_id<T: ?Sized>() -> TypeId {
+    trait GetTypeId {
+        fn get_type_id(&self) -> TypeId where Self: 'static;
+    }
+
+    impl<T: ?Sized> GetTypeId for PhantomData<T> {
+        fn get_type_id(&self) -> TypeId where Self: 'static {
+            TypeId::of::<T>()
+        }
+    }
+
+    let marker = PhantomData::<T>;
+    // safety: this only extends a lifetime bound, and nothing the bound would
+    //         be needed for is reachable from a `PhantomData`
+    let marker = unsafe {
+        transmute::<&dyn GetTypeId, &(dyn GetTypeId + 'static)>(&marker)
+    };
+    marker.get_type_id()
+}
+
 impl<'a> Default for RecurseStack<'a> {
     fn default() -> Self {
         RecurseStack::new()
@@ -52,7 +76,7 @@ impl<'a> RecurseStack<'a> {
 
     pub fn with_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
         RecurseStack(Some(Node {
-            val: Some(T::schema),
+            val: Some(type_id::<T>()),
             dbg: type_name::<T>(),
             next: &self.0,
         }))
@@ -67,14 +91,13 @@ impl<'a> RecurseStack<'a> {
     }
 
     pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {
+        let id = type_id::<T>();
         let mut opt_curr = &self.0;
         let mut level = 0;
 
         while let Some(curr) = opt_curr {
-            if let Some(curr_val) = curr.val {
-                if curr_val as usize == T::schema as usize {
-                    return Some(level);
-                }
+            if curr.val == Some(id) {
+                return Some(level);
             }
             opt_curr = curr.next;
             level += 1;
-- 
2.43.0


From f71eda8fd1f8487ba8bbb0df55f4a367dc1aabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 10/15] fix: schemas of ranges and bounds match how serde
 serializes them

---
 binschema/src/known_schema.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 2b54424..6f0176d 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -257,7 +257,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -267,7 +267,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -277,9 +277,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From 3184700bd6074b71e5e7dce7e53954d80724136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 11/15] fix: count the entry tuple of maps when tracking
 recursion

---
 binschema/src/known_schema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 6f0176d..fe34008 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -205,9 +205,10 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                let entry_stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
-                    (%K::schema(stack)),
-                    (%V::schema(stack)),
+                    (%K::schema(entry_stack)),
+                    (%V::schema(entry_stack)),
                 }))
             }
         }
-- 
2.43.0


From 63ebc028d8e8eff752f926d4f867a30d697f4d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 12/15] fix: derive names of raw identifiers without the r#
 prefix, like serde

---
 binschema_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..a903d2f 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -2,6 +2,7 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use syn::{
+    ext::IdentExt,
     token::Comma,
     punctuated::Punctuated,
     parse_macro_input,
@@ -56,7 +57,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
             // struct-like
             let inner = named.iter()
                 .map(|field| {
-                    let field_name = field.ident.as_ref().unwrap();
+                    let field_name = field.ident.as_ref().unwrap().unraw();
                     let inner = field_schema(field);
                     quote! {
                         (#field_name: #inner)
@@ -117,7 +118,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
-                    let variant_name = &variant.ident;
+                    let variant_name = variant.ident.unraw();
                     let inner = fields_schema(&variant.fields);
                     quote! {
                         #variant_name(#inner)
-- 
2.43.0


From 73bd655f0f9dc51957a8ea21fc427f7eab633d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 13/15] fix: derived structs add exactly their own schema
 layers when tracking recursion

---
 binschema/src/known_schema.rs | 23 ++++++++++++++++++++++-
 binschema_derive/src/lib.rs   | 24 ++++++++++++++++++------
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index fe34008..14aeffb 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -37,6 +37,8 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 #[derive(Copy, Clone)]
 struct Node<'a> {
     val: Option<TypeId>,
+    /// Whether there is no layer in the schema which this layer stands for.
+    transparent: bool,
     dbg: &'static str,
     next: &'a Option<Node<'a>>,
 }
@@ -77,6 +79,19 @@ impl<'a> RecurseStack<'a> {
     pub fn with_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
         RecurseStack(Some(Node {
             val: Some(type_id::<T>()),
+            transparent: false,
+            dbg: type_name::<T>(),
+            next: &self.0,
+        }))
+    }
+
+    /// Add a layer for a type which has no schema layer of its own, as its
+    /// schema is just the schema of its content (such as a newtype struct).
+    /// Recursing to the type then is recursing to the layer added next.
+    pub fn with_transparent_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(type_id::<T>()),
+            transparent: true,
             dbg: type_name::<T>(),
             next: &self.0,
         }))
@@ -85,6 +100,7 @@ impl<'a> RecurseStack<'a> {
     pub fn with_none_layer<'b>(&'b self) -> RecurseStack<'b> {
         RecurseStack(Some(Node {
             val: None,
+            transparent: false,
             dbg: "",
             next: &self.0,
         }))
@@ -97,10 +113,15 @@ impl<'a> RecurseStack<'a> {
 
         while let Some(curr) = opt_curr {
             if curr.val == Some(id) {
+                if curr.transparent {
+                    level = usize::saturating_sub(level, 1);
+                }
                 return Some(level);
             }
             opt_curr = curr.next;
-            level += 1;
+            if !curr.transparent {
+                level += 1;
+            }
         }
 
         None
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index a903d2f..ad89cdd 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -51,7 +51,9 @@ fn field_schema(field: &Field) -> TokenStream2 {
     }
 }
 
-fn fields_schema(fields: &Fields) -> TokenStream2 {
+/// `stack_layer` is what adds the layer of the struct or tuple itself to the
+/// stack, if that isn't done already.
+fn fields_schema(fields: &Fields, stack_layer: TokenStream2) -> TokenStream2 {
     match fields {
         &Fields::Named(FieldsNamed { ref named, .. }) => {
             // struct-like
@@ -66,7 +68,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                 .collect::<Punctuated<_, Comma>>();
             quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #stack_layer
                     ::binschema::schema!(
                         struct { #inner }
                     )
@@ -92,7 +94,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                     .collect::<Punctuated<_, Comma>>();
                 quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #stack_layer
                     ::binschema::schema!(
                         tuple { #inner }
                     )
@@ -113,13 +115,23 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
 
     let name = &input.ident;
+    let mut with_layer = quote! { with_type_layer };
     let schema = match &input.data {
-        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
+        &Data::Struct(DataStruct { ref fields, .. }) => {
+            if matches!(fields, Fields::Unnamed(_)) && fields.len() == 1 {
+                // newtype, has no schema layer of its own
+                with_layer = quote! { with_transparent_type_layer };
+            }
+            fields_schema(fields, quote! {})
+        },
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
                     let variant_name = variant.ident.unraw();
-                    let inner = fields_schema(&variant.fields);
+                    let stack_layer = quote! {
+                        let stack = stack.with_none_layer();
+                    };
+                    let inner = fields_schema(&variant.fields, stack_layer);
                     quote! {
                         #variant_name(#inner)
                     }
@@ -140,7 +152,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#with_layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From 9a0c32f4a3d8b7d061d82f1f041ce20acb03ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 14/15] fix: close the enum in the debug log when its variant
 is refused

---
 binschema/src/coder/coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 1ead0e6..9e60e99 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -915,6 +915,7 @@ impl<'a> CoderState<'a> {
                 ..
             }),
         ));
+        dbg_log_pop!(self, "enum cancelled");
         self.top().api_state = ApiState::Need;
     }
 }
-- 
2.43.0


From f313e183a81c1294057213c796007663f5f5675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 15/15] fix: do not report the library's own serde errors as
 the application's (kind Other)

---
 binschema/src/serde/de.rs  |  2 +-
 binschema/src/serde/ser.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 683bdf6..b43b173 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -333,7 +333,7 @@ impl<'a, 'b, 'c, 'd, R: Read> SeqAccess<'d> for SeqDecoder<'a, 'b, 'c, R> {
                 SeqLike::Seq => self.decoder.begin_seq_elem()?,
                 SeqLike::Tuple => self.decoder.begin_tuple_elem()?,
                 SeqLike::Unit => bail!(
-                    Other,
+                    SchemaNonConformance,
                     Some(self.decoder.coder_state()),
                     "deserialize element from unit as seq-like",
                 ),
diff --git a/binschema/src/serde/ser.rs b/binschema/src/serde/ser.rs
index 3531206..e6eeacc 100644
--- a/binschema/src/serde/ser.rs
+++ b/binschema/src/serde/ser.rs
@@ -49,7 +49,7 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
                 &Schema::Seq(SeqSchema { len: None, .. }) => {
                     let len = got_len
                         .ok_or_else(|| error!(
-                            Other,
+                            SchemaNonConformance,
                             Some(self.coder_state()),
                             "serialize var len seq without specifying len",
                         ))?;
@@ -202,7 +202,11 @@ impl<'a, 'b, 'c, W: Write> Serializer for &'c mut Encoder<'a, 'b, W> {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self> {
         let len = len
-            .ok_or_else(|| Error::other("serialize_map with None len"))?;
+            .ok_or_else(|| error!(
+                ApiUsage,
+                Some(self.coder_state()),
+                "serialize_map with None len",
+            ))?;
         self.begin_var_len_seq(len)?;
         Ok(self)
     }
@@ -252,7 +256,7 @@ impl<'a, 'b, 'c, W: Write> SeqLikeSerializer<'a, 'b, 'c, W> {
             SeqLike::Seq => self.encoder.begin_seq_elem()?,
             SeqLike::Tuple => self.encoder.begin_tuple_elem()?,
             SeqLike::Unit => bail!(
-                Other,
+                SchemaNonConformance,
                 Some(self.encoder.coder_state()),
                 "serialize element to unit as seq-like",
             ),
-- 
2.43.0

