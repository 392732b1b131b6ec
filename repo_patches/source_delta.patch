From 0b4daae05b872aaa81abbb1498e477527b036d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 01/94] fix: read both digits of a two-digit hex string escape

The slice was taken after the index had already moved to the second
digit, so the escape was read one character late.
---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..d958339 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -213,7 +213,6 @@ impl Token {
                         i += 1;
                         if input[i].is_ascii_hexdigit() {
                             if i < input.len() - 1 && input[i + 1].is_ascii_hexdigit() {
-                                i += 1;
                                 out.push(
                                     u8::from_str_radix(
                                         std::str::from_utf8(&input[i..i + 2]).unwrap(),
@@ -221,6 +220,7 @@ impl Token {
                                     )
                                     .unwrap(),
                                 );
+                                i += 1;
                             } else {
                                 out.push(
                                     u8::from_str_radix(
-- 
2.43.0


From 744d32fca141b0267634ab231e2fbf2c19390c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 02/94] fix: emit the value of a referenced constant

Constants are not emitted as items, so the bare name that stood for one
in the generated code was undefined.
---
 protospec-build/src/compiler/expr.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..3837fc9 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -360,12 +360,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 U128(x) => quote! { #x },
             }
         }
-        ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
-            quote! {
-                #c
-            }
-        }
+        ConstRef(c) => emit_expression(&c.value, ref_resolver),
         InputRef(c) => {
             let c = format_ident!("{}", c.name);
             quote! {
-- 
2.43.0


From 31d96572ff84328157077597c4049ae036156631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 03/94] fix: emit a Rust shift for >>>

Rust has no >>> operator, so no document using it compiled.
---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 3837fc9..dfb1b84 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -278,7 +278,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     BinaryOp::BitXor => quote! { ^ },
                     BinaryOp::Shr => quote! { >> },
                     BinaryOp::Shl => quote! { << },
-                    BinaryOp::ShrSigned => quote! { >>> },
+                    BinaryOp::ShrSigned => quote! { >> },
                     BinaryOp::Add => quote! { + },
                     BinaryOp::Sub => quote! { - },
                     BinaryOp::Mul => quote! { * },
-- 
2.43.0


From 876c8912e30f0a419389aed47e0a443779942d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 04/94] fix: index arrays with usize

---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index dfb1b84..0b21e1c 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -335,7 +335,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let index = emit_expression(&c.index, ref_resolver);
 
             quote! {
-                (#array)[#index]
+                (#array)[(#index) as usize]
             }
         }
         EnumAccess(c) => {
-- 
2.43.0


From d7cf713a51e57904d5f824d96807b98c3d3e3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 05/94] fix: parenthesise emitted casts

Without the parentheses a cast used as an operand could bind to what
follows it, e.g. '(a) as u32 < (b)' is parsed as a generic argument list.
---
 protospec-build/src/compiler/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 0b21e1c..4b18a15 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -315,17 +315,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
-                        (#inner).to_repr() as #target
+                        ((#inner).to_repr() as #target)
                     }
                 }
                 Type::Bitfield(_) => {
                     quote! {
-                        (#inner).0 as #target
+                        ((#inner).0 as #target)
                     }
                 }
                 _ => {
                     quote! {
-                        (#inner) as #target
+                        ((#inner) as #target)
                     }
                 }
             }
-- 
2.43.0


From 7f13ceb0497a71c2001dabd0c94fe998705accc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 06/94] fix: parenthesise emitted conditional expressions

A bare if/else is not allowed in all the places an operand is.
---
 protospec-build/src/compiler/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 4b18a15..4c52215 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -380,11 +380,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let if_false = emit_expression(&c.if_false, ref_resolver);
 
             quote! {
-                if #condition {
+                (if #condition {
                     #if_true
                 } else {
                     #if_false
-                }
+                })
             }
         }
         Bool(c) => {
-- 
2.43.0


From 1bed1846cde11deeab6cfec1f72c47d5630029e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 07/94] fix: pass streams to transforms and references by
 borrow

A transform took its input stream by value, so nothing could be encoded
or decoded after a transformed field, transforms could not follow each
other, and a type reference could not be encoded through one.
---
 protospec-build/src/compiler/decoder.rs | 15 +++++++++++++--
 protospec-build/src/compiler/encoder.rs | 20 ++++++++++++++++----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..954e39e 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -13,6 +13,17 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+/// the target as a fresh mutable borrow, to be owned by a transform
+fn emit_target_borrow(target: &Target) -> TokenStream {
+    match target {
+        Target::Buf(_) => emit_target(target),
+        _ => {
+            let target = emit_target(target);
+            quote! { (&mut *#target) }
+        }
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -164,7 +175,7 @@ fn prepare_decode(
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                let input = emit_target(stream);
+                let input = emit_target_borrow(stream);
                 let transformed = transformer.inner.decoding_gen(input, args, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
@@ -182,7 +193,7 @@ fn prepare_decode(
                 let condition = emit_register(*condition);
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                let input = emit_target(stream);
+                let input = emit_target_borrow(stream);
                 let transformed = transformer
                     .inner
                     .decoding_gen(input.clone(), args, is_async);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..13be046 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -15,6 +15,18 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+/// the target as a fresh mutable borrow, to be owned by a transform
+fn emit_target_borrow(target: &Target) -> TokenStream {
+    match target {
+        Target::Direct => quote! { (&mut *writer) },
+        Target::Stream(x) => {
+            let stream = emit_register(*x);
+            quote! { (&mut #stream) }
+        }
+        Target::Buf(_) => emit_target(target),
+    }
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -153,7 +165,7 @@ impl EncoderContext {
                 Instruction::WrapStream(stream, new_stream, transformer, args) => {
                     let new_stream_value = emit_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_target_borrow(stream);
                     let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
                     statements.push(quote! {
                         let mut #new_stream_value = #transformed;
@@ -196,7 +208,7 @@ impl EncoderContext {
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
-                    let target = emit_target(target);
+                    let target = emit_target_borrow(target);
                     let source = emit_register(*source);
                     if self.is_async {
                         statements.push(quote! {
@@ -330,7 +342,7 @@ impl EncoderContext {
                     let new_stream_value = emit_register(*new_stream);
                     let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_target_borrow(stream);
                     let transformed =
                         transformer
                             .inner
@@ -346,7 +358,7 @@ impl EncoderContext {
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut #trait_name = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
-- 
2.43.0


From 9be56a48666965a61a4499b25a798fea45fc25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 08/94] fix: generate code that compiles for arrays of bool

---
 protospec-build/src/compiler/decoder.rs | 8 ++++++--
 protospec-build/src/compiler/encoder.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 954e39e..8d09891 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -323,6 +323,10 @@ fn prepare_decode(
                     }) => quote! { from_le_bytes },
                     _ => quote! { from_be_bytes },
                 };
+                let item = match type_ {
+                    PrimitiveType::Bool => quote! { x[0] != 0 },
+                    _ => quote! { #type_::#decoder(x.try_into().unwrap()) },
+                };
                 if let Some(len) = len {
                     let len = emit_register(*len);
                     statements.push(quote! {
@@ -332,7 +336,7 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
                             unsafe { raw.set_len(t_count * size) };
                             #target.read_exact(&mut raw[..])#async_?;
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
                 } else {
@@ -341,7 +345,7 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
                 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 13be046..91d060f 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -279,7 +279,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[if *x { 1u8 } else { 0u8 }])#async_?;
                                 }
                             }
                         }
-- 
2.43.0


From ac6a75fb060b1770c61c6bacad1b52f16639eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 09/94] fix: encode named elements and fields by their own type

A reference to a declared type such as 'type T = u8' was encoded as if it
were the type it stands for, but has a type of its own in the generated
code, which then did not compile; transforms of a referenced enum were
dropped from arrays of it.
---
 protospec-build/src/asg/types/mod.rs      | 25 ++++++++++++++++++++++-
 protospec-build/src/coder/decode/array.rs |  2 +-
 protospec-build/src/coder/encode/array.rs |  2 +-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..7dd958d 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -86,6 +86,22 @@ impl Type {
         }
     }
 
+    /// looks through a reference only if its target is encoded exactly like its type
+    pub fn inlined(&self) -> Cow<'_, Type> {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                type_ @ (Type::Enum(_) | Type::Bitfield(_))
+                    if x.target.condition.borrow().is_none()
+                        && x.target.transforms.borrow().is_empty() =>
+                {
+                    Cow::Owned(type_.clone())
+                }
+                _ => Cow::Borrowed(self),
+            },
+            x => Cow::Borrowed(x),
+        }
+    }
+
     pub fn assignable_from(&self, other: &Type) -> bool {
         match (self.resolved().as_ref(), other.resolved().as_ref()) {
             (Type::Ref(field1), Type::Ref(field2)) => field1
@@ -153,7 +169,14 @@ impl Type {
     }
 
     pub fn copyable(&self) -> bool {
-        match &*self.resolved() {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                Type::Enum(_) => true,
+                Type::Bitfield(_) => true,
+                Type::Foreign(foreign) => foreign.obj.copyable(),
+                // all others have a type of their own
+                _ => false,
+            },
             Type::Enum(_) => true,
             Type::Bitfield(_) => true,
             Type::Scalar(_) => true,
diff --git a/protospec-build/src/coder/decode/array.rs b/protospec-build/src/coder/decode/array.rs
index 789506d..751a7ff 100644
--- a/protospec-build/src/coder/decode/array.rs
+++ b/protospec-build/src/coder/decode/array.rs
@@ -24,7 +24,7 @@ impl Context {
 
         let output = self.alloc_register();
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.inlined();
             match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => (),
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..ccdc2a3 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -37,7 +37,7 @@ impl Context {
         };
 
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.inlined();
             let primitive_type = match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => None,
-- 
2.43.0


From 7a68d895d390f4698f1abdd67bb8b64f1bf8d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 10/94] fix: read all bytes of a variable-length integer

The longest encoding was computed from the size in bytes rather than
bits, so every value that takes more than a few bytes was cut short and
its remaining bytes were taken for the next field.
---
 protospec-build/src/prelude/var.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..27f7e9e 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,7 +71,7 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
+        let end = (self.scalar_type.size() as usize * 8 + 6) / 7;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
@@ -83,7 +83,7 @@ impl ForeignType for VarInt {
                     #source.read_exact(&mut buf[..])#async_?;
                     output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
                     i += 1;
-                    if i > #end {
+                    if i >= #end {
                         break;
                     }
                 }
-- 
2.43.0


From 9a448493537524647b68c88dc654ffd991e54e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 11/94] fix: apply transforms left to right when encoding

Both coders wrapped their streams in the same order, so a chain was
decoded in the order it was encoded in instead of the reverse.
---
 protospec-build/src/coder/encode/field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..fe8b49b 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,8 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        // what is wrapped last is written through first
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
-- 
2.43.0


From 0a9f3ce2efe339198df778a45dddd66b69cebdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 12/94] fix: decode utf16 in the byte order it is encoded in

It is written big-endian but was read in the order of the host, into an
uninitialised buffer allocated for whatever length the input claims.
---
 protospec-build/src/prelude/utf16.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..2b9b1db 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -32,15 +32,12 @@ impl ForeignType for Utf16 {
         quote! {
             let #output_ref = {
                 let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
-                };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
+                let mut raw: Vec<u8> = Vec::new();
+                (&mut *#source).take((t_count as u64).saturating_mul(2)).read_to_end(&mut raw)#async_?;
+                if (raw.len() as u64) < (t_count as u64).saturating_mul(2) {
+                    Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                }
+                let t = raw.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect::<Vec<u16>>();
                 String::from_utf16(&t[..])?
             };
         }
-- 
2.43.0


From 1300213d0a648ffaa4b6c7a9973f9bf1fcb83d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 13/94] fix: do not allocate the length an encoded string
 claims

A few bytes of input could make the decoder panic or abort on allocating
an arbitrary amount of memory.
---
 protospec-build/src/prelude/utf8.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..29fc389 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -32,15 +32,11 @@ impl ForeignType for Utf8 {
             quote! {
                 let #output_ref = {
                     let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
+                    let mut t: Vec<u8> = Vec::new();
+                    (&mut *#source).take(t_count as u64).read_to_end(&mut t)#async_?;
+                    if t.len() < t_count {
+                        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                    }
                     String::from_utf8(t)?
                 };
             }
-- 
2.43.0


From bbc7d4d37321d3c913dcf5a55e5d14c9525ad8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 14/94] fix: do not allocate the length an encoded array or pad
 claims

A few bytes of input could make the decoder panic on an overflowing size,
or abort on allocating an arbitrary amount of memory.
---
 protospec-build/src/compiler/decoder.rs | 27 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 8d09891..d19fbb1 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -333,9 +333,12 @@ fn prepare_decode(
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let mut raw: Vec<u8> = Vec::new();
+                            let t_size = (t_count as u64).saturating_mul(size as u64);
+                            (&mut *#target).take(t_size).read_to_end(&mut raw)#async_?;
+                            if (raw.len() as u64) < t_size {
+                                Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                            }
                             raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
@@ -368,9 +371,12 @@ fn prepare_decode(
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let mut raw: Vec<u8> = Vec::new();
+                            let t_size = (t_count as u64).saturating_mul(size as u64);
+                            (&mut *#target).take(t_size).read_to_end(&mut raw)#async_?;
+                            if (raw.len() as u64) < t_size {
+                                Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
@@ -393,7 +399,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
+                        let mut #output = Vec::new();
                         for _ in 0..#stop {
                             #inner
                         }
@@ -517,8 +523,11 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let len = emit_register(*len);
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    let mut big_scratch: Vec<u8> = Vec::new();
+                    (&mut *#target).take(#len as u64).read_to_end(&mut big_scratch)#async_?;
+                    if (big_scratch.len() as u64) < #len as u64 {
+                        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                    }
                 });
             }
         }
-- 
2.43.0


From c10c53088d5264a0eb25bdd66842fd4fa5068fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 15/94] fix: refuse to encode a string of another length than
 declared

What was written could not be decoded.
---
 protospec-build/src/prelude/utf16.rs | 6 +++++-
 protospec-build/src/prelude/utf8.rs  | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 2b9b1db..5cd1dea 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -47,12 +47,16 @@ impl ForeignType for Utf16 {
         &self,
         target: TokenStream,
         field_ref: TokenStream,
-        _arguments: Vec<TokenStream>,
+        arguments: Vec<TokenStream>,
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
+        let len = arguments.first().expect("missing len argument");
         quote! {
             {
+                if #field_ref.encode_utf16().count() as u64 != #len as u64 {
+                    return Err(encode_error("string does not have its declared length").into());
+                }
                 for utf16 in #field_ref.encode_utf16() {
                     #target.write_all(&utf16.to_be_bytes()[..])#async_?;
                 }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 29fc389..1cd8635 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -62,9 +62,12 @@ impl ForeignType for Utf8 {
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
-        if let Some(_) = arguments.first() {
+        if let Some(len) = arguments.first() {
             quote! {
                 {
+                    if #field_ref.len() as u64 != #len as u64 {
+                        return Err(encode_error("string does not have its declared length").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                 }
             }
-- 
2.43.0


From e6fb97a281fd23ce78b942c30c27a79e8f8343ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 16/94] fix: return an error for a primitive array of the wrong
 length

The encoder panicked.
---
 protospec-build/src/compiler/encoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 91d060f..3b1b574 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -315,8 +315,7 @@ impl EncoderContext {
                             {
                                 let t_count = #len as usize;
                                 if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                    return Err(encode_error("array does not have its declared length").into());
                                 }
                                 #writing
                             }
-- 
2.43.0


From 2890974dd3e0faeeedd480ce5d2cea7686051474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 17/94] fix: accept references which pass arguments that have
 defaults

---
 protospec-build/src/semantics/convert/type_/type_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..74c94ff 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -13,7 +13,7 @@ impl Scope {
                 .count();
             // optionals MUST be at the end
             if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
+                && target_args[..min_arg_count]
                     .iter()
                     .any(|x| x.default_value.is_some())
             {
-- 
2.43.0


From a4bce577d5b35001a04ad54ee568d98d75b59efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 18/94] fix: accept foreign calls which pass optional arguments

---
 protospec-build/src/semantics/convert/ffi_arguments.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 7cfed2f..5cfb1ab 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -11,9 +11,7 @@ impl Scope {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
         // optionals MUST be at the end
         if min_arg_count < arguments.len()
-            && type_arguments[type_arguments.len() - min_arg_count..]
-                .iter()
-                .any(|x| !x.optional)
+            && type_arguments[..min_arg_count].iter().any(|x| x.optional)
         {
             unimplemented!("cannot have ffi transform with required arguments after optional arguments for '{}'", name);
         }
-- 
2.43.0


From 403cc1d16fe3754322a2f3baad2d21dc37796421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 19/94] fix: pass arguments that have defaults as options

---
 .../src/coder/decode/instruction.rs           |  2 +-
 protospec-build/src/coder/decode/mod.rs       |  2 +-
 .../src/coder/encode/instruction.rs           |  6 ++--
 protospec-build/src/coder/encode/var_ref.rs   |  1 +
 protospec-build/src/coder/mod.rs              | 30 ++++++++++++++++++-
 protospec-build/src/compiler/decoder.rs       |  7 +----
 protospec-build/src/compiler/encoder.rs       |  7 +----
 protospec-build/src/compiler/mod.rs           | 15 ++++++++++
 8 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..1dce46c 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     ), // condition, prelude, stream, new stream, transformer, arguments
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
-    DecodeRef(Target, usize, String, Vec<usize>),
+    DecodeRef(Target, usize, String, Vec<RefArgument>),
     DecodeRepr(String, PrimitiveType, usize, Target),
     DecodePrimitive(Target, usize, PrimitiveType),
     DecodePrimitiveArray(Target, usize, PrimitiveType, Option<usize>),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 0e5369d..730a193 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -153,7 +153,7 @@ impl Context {
                         source,
                         output,
                         r.target.name.clone(),
-                        args,
+                        RefArgument::from_registers(&r.target, args),
                     ));
                 }
                 output
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..eb0877e 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     /// dest, source, type, arguments
     EncodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     /// dest, source, arguments
-    EncodeRef(Target, usize, Vec<usize>),
+    EncodeRef(Target, usize, Vec<RefArgument>),
     /// rep type, dest, source
     EncodeEnum(Target, usize, EndianScalarType),
     /// dest, source
@@ -140,9 +140,7 @@ impl fmt::Display for Instruction {
                 write!(f, ")")
             }
             Instruction::EncodeRef(dest, source, arguments) => {
-                write!(f, "EncodeRef({:?}, {}, ", dest, source)?;
-                write_arguments(f, &arguments[..])?;
-                write!(f, ")")
+                write!(f, "EncodeRef({:?}, {}, {:?})", dest, source, arguments)
             }
             Instruction::EncodeEnum(dest, source, type_) => {
                 write!(f, "EncodeEnum({:?}, {}, {})", dest, source, type_)
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index 45ad006..90408ca 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -22,6 +22,7 @@ impl Context {
                 self.instructions.push(Instruction::Eval(r, arg.clone()));
                 args.push(r);
             }
+            let args = RefArgument::from_registers(&type_.target, args);
             self.instructions
                 .push(Instruction::EncodeRef(target, source, args));
         }
diff --git a/protospec-build/src/coder/mod.rs b/protospec-build/src/coder/mod.rs
index c087b01..ce394b5 100644
--- a/protospec-build/src/coder/mod.rs
+++ b/protospec-build/src/coder/mod.rs
@@ -3,7 +3,7 @@ use std::fmt;
 use proc_macro2::TokenStream;
 use quote::{ToTokens, TokenStreamExt};
 
-use crate::{EndianScalarType, ScalarType};
+use crate::{asg::Field, EndianScalarType, ScalarType};
 
 #[derive(Debug)]
 pub enum FieldRef {
@@ -29,6 +29,34 @@ impl Target {
     }
 }
 
+/// an argument passed to the coder of a referenced type
+#[derive(Clone, Copy, Debug)]
+pub enum RefArgument {
+    /// register of the value of an argument without a default
+    Required(usize),
+    /// register of the value of an argument with a default
+    Optional(usize),
+    /// argument left to its default
+    Default,
+}
+
+impl RefArgument {
+    /// pairs given registers with the arguments the target declares
+    pub fn from_registers(target: &Field, registers: Vec<usize>) -> Vec<RefArgument> {
+        target
+            .arguments
+            .borrow()
+            .iter()
+            .enumerate()
+            .map(|(i, argument)| match registers.get(i) {
+                Some(r) if argument.default_value.is_some() => RefArgument::Optional(*r),
+                Some(r) => RefArgument::Required(*r),
+                None => RefArgument::Default,
+            })
+            .collect()
+    }
+}
+
 #[derive(Clone, Copy, Debug)]
 pub enum PrimitiveType {
     Bool,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index d19fbb1..e761e69 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -240,12 +240,7 @@ fn prepare_decode(
                 );
             }
             Instruction::DecodeRef(target, source, class, args) => {
-                let mut out_arguments = vec![];
-                for argument in args {
-                    let value = emit_register(*argument);
-                    out_arguments.push(quote! {, #value});
-                }
-                let out_arguments = flatten(out_arguments);
+                let out_arguments = flatten(args.iter().map(emit_ref_argument));
                 let target = emit_target(target);
                 let source = emit_register(*source);
                 let class = emit_ident(class);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3b1b574..0f73b6d 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -202,12 +202,7 @@ impl EncoderContext {
                     });
                 }
                 Instruction::EncodeRef(target, source, args) => {
-                    let mut out_arguments = vec![];
-                    for argument in args {
-                        let value = emit_register(*argument);
-                        out_arguments.push(quote! {, #value});
-                    }
-                    let out_arguments = flatten(out_arguments);
+                    let out_arguments = flatten(args.iter().map(emit_ref_argument));
                     let target = emit_target_borrow(target);
                     let source = emit_register(*source);
                     if self.is_async {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..5a6e330 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -284,6 +284,21 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+/// an argument in a call of the coder of a referenced type, with its separator
+fn emit_ref_argument(argument: &coder::RefArgument) -> TokenStream {
+    match argument {
+        coder::RefArgument::Required(register) => {
+            let register = emit_register(*register);
+            quote! { , #register }
+        }
+        coder::RefArgument::Optional(register) => {
+            let register = emit_register(*register);
+            quote! { , Some(#register) }
+        }
+        coder::RefArgument::Default => quote! { , None },
+    }
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
-- 
2.43.0


From 64c8f078b29d6d2907bc54d6f0183e5678039c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 20/94] fix: decode optional fields of optional containers as
 one option

---
 protospec-build/src/coder/decode/field.rs       | 10 ++++++++--
 protospec-build/src/coder/decode/instruction.rs |  3 ++-
 protospec-build/src/coder/decode/mod.rs         |  8 +++++++-
 protospec-build/src/compiler/decoder.rs         |  8 +++++---
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 865df93..79deacd 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -59,11 +59,17 @@ impl Context {
         if let Some(field_condition) = field_condition {
             let drained = self.instructions.drain(start..).collect();
             if emitted.is_empty() {
-                panic!("no emitted values from conditional");
+                self.instructions
+                    .push(Instruction::ConditionalPredicate(field_condition, drained));
+                return emitted;
             }
+            let interior = emitted
+                .iter()
+                .map(|r| (*r, !self.optional_registers.insert(*r)))
+                .collect();
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
-                emitted.clone(),
+                interior,
                 field_condition,
                 drained,
             ));
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 1dce46c..3678f52 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -57,7 +57,8 @@ pub enum Instruction {
         Vec<Instruction>,
     ),
     LoopOutput(usize, usize), // output handle, item
-    Conditional(Vec<usize>, Vec<usize>, usize, Vec<Instruction>), // target, interior_register, condition, if_true
+    // target, (interior_register, is already optional), condition, if_true
+    Conditional(Vec<usize>, Vec<(usize, bool)>, usize, Vec<Instruction>),
     ConditionalPredicate(usize, Vec<Instruction>), // target, interior_register, condition, if_true
     /// returns from decoder early
     Return(usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 730a193..c086c45 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,6 +1,9 @@
 use super::*;
 use crate::asg::*;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 
 mod instruction;
 pub use instruction::*;
@@ -18,6 +21,8 @@ pub use container::*;
 pub struct Context {
     pub register_count: usize,
     pub field_register_map: HashMap<String, usize>,
+    // registers already holding an option, of fields with a condition
+    pub optional_registers: HashSet<usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
 }
@@ -36,6 +41,7 @@ impl Context {
             name: String::new(),
             instructions: vec![],
             field_register_map: HashMap::new(),
+            optional_registers: HashSet::new(),
             register_count: 0,
         }
     }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index e761e69..fb9fef4 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -460,10 +460,12 @@ fn prepare_decode(
                 let interiors = interior
                     .iter()
                     .copied()
-                    .map(|r| {
+                    .map(|(r, is_optional)| {
                         let r = emit_register(r);
-                        quote! {
-                            Some(#r)
+                        if is_optional {
+                            quote! { #r }
+                        } else {
+                            quote! { Some(#r) }
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From 1fb6b2023c2770cf042e9551ef5e66f75e71d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 21/94] fix: coerce the result of ?: and not its optional side

---
 protospec-build/src/semantics/convert/expression/binary.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 705210a..246057a 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -22,6 +22,8 @@ impl Scope {
         let init_expected_type = match expr.op {
             Lt | Gt | Lte | Gte => PartialType::Scalar(PartialScalarType::None),
             Eq | Ne => PartialType::Any,
+            // the left side is optional, only the result can be coerced
+            Elvis => PartialType::Any,
             Or | And => PartialType::Type(Type::Bool),
             _ => expected_type.clone(),
         };
-- 
2.43.0


From 3d54febe2db6df9939f124fd1200efb5ae7b5507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 22/94] fix: return an error for an array of the wrong length

---
 protospec-build/src/coder/encode/array.rs       | 1 +
 protospec-build/src/coder/encode/instruction.rs | 3 +++
 protospec-build/src/compiler/encoder.rs         | 9 +++++++++
 3 files changed, 13 insertions(+)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index ccdc2a3..375563c 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,6 +89,7 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
+            self.instructions.push(Instruction::CheckLen(source, len));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index eb0877e..d27e17c 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -58,6 +58,8 @@ pub enum Instruction {
     Loop(usize, usize, Vec<Instruction>),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
+    /// source, expected length
+    CheckLen(usize, usize),
     /// register
     Drop(usize),
     /// original, checked, is_copyable, message
@@ -172,6 +174,7 @@ impl fmt::Display for Instruction {
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
+            Instruction::CheckLen(source, len) => write!(f, "CheckLen({}, {})", source, len),
             Instruction::Drop(register) => write!(f, "Drop({})", register),
             Instruction::NullCheck(original, checked, is_copyable, message) => write!(
                 f,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 0f73b6d..954091f 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -127,6 +127,15 @@ impl EncoderContext {
                         let #len = #source.len() #cast;
                     });
                 }
+                Instruction::CheckLen(source, len) => {
+                    let source = emit_register(*source);
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        if #len as usize != #source.len() {
+                            return Err(encode_error("array does not have its declared length").into());
+                        }
+                    });
+                }
                 Instruction::NullCheck(target, destination, is_copyable, message) => {
                     let target = emit_register(*target);
                     let destination = emit_register(*destination);
-- 
2.43.0


From 0c41b7f2625962fa32afd2fb89fbe1f2a2b4451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 23/94] fix: generate code that compiles for bool variants of
 tagged enums

---
 protospec-build/src/coder/encode/container.rs |  1 +
 .../src/coder/encode/instruction.rs           | 22 ++++++++++++++-----
 protospec-build/src/compiler/encoder.rs       | 16 ++++++++++++--
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..9efdd13 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -238,6 +238,7 @@ impl Context {
                             name.clone(),
                             source,
                             unwrapped,
+                            subtype.copyable(),
                             "mismatch betweeen condition and enum discriminant".to_string(),
                         ));
 
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index d27e17c..f3ffece 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -66,8 +66,8 @@ pub enum Instruction {
     NullCheck(usize, usize, bool, String),
     /// condition, if_true, if_false
     Conditional(usize, Vec<Instruction>, Vec<Instruction>),
-    /// enum name, discriminant, original, checked, message
-    UnwrapEnum(String, String, usize, usize, String),
+    /// enum name, discriminant, original, checked, do_copy, message
+    UnwrapEnum(String, String, usize, usize, bool, String),
     /// enum name, discriminant, original, checked: (enumstruct field name, checked, do_copy), message
     UnwrapEnumStruct(String, String, usize, Vec<(String, usize, bool)>, String),
     /// instructions
@@ -192,10 +192,22 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => write!(
+            Instruction::UnwrapEnum(
+                enum_name,
+                discriminant,
+                original,
+                checked,
+                do_copy,
+                message,
+            ) => write!(
                 f,
-                "UnwrapEnum('{}', '{}', {}, {}, '{}')",
-                enum_name, discriminant, original, checked, message
+                "UnwrapEnum('{}', '{}', {}, {}{}, '{}')",
+                enum_name,
+                discriminant,
+                original,
+                if *do_copy { "*" } else { "" },
+                checked,
+                message
             ),
             Instruction::UnwrapEnumStruct(enum_name, discriminant, original, checked, message) => {
                 write!(
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 954091f..485e528 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -370,15 +370,27 @@ impl EncoderContext {
                         };
                     })
                 }
-                Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => {
+                Instruction::UnwrapEnum(
+                    enum_name,
+                    discriminant,
+                    original,
+                    checked,
+                    do_copy,
+                    message,
+                ) => {
                     let enum_name = emit_ident(enum_name);
                     let discriminant = emit_ident(discriminant);
                     let original = emit_register(*original);
                     let checked = emit_register(*checked);
+                    let copy = if *do_copy {
+                        quote! { * }
+                    } else {
+                        quote! {}
+                    };
 
                     statements.push(quote! {
                         let #checked = if let #enum_name::#discriminant(#checked) = &#original {
-                            #checked
+                            #copy#checked
                         } else {
                             return Err(encode_error(#message).into())
                         };
-- 
2.43.0


From 53b014df653c3463faf338d76eb728fda9201155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 24/94] fix: decode references behind transforms from buffered
 streams

---
 protospec-build/src/compiler/decoder.rs | 25 ++++++++++++++++++++-----
 protospec-build/src/prelude/base64.rs   |  2 +-
 protospec-build/src/prelude/gzip.rs     |  4 ++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index fb9fef4..40ebfec 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -24,6 +24,21 @@ fn emit_target_borrow(target: &Target) -> TokenStream {
     }
 }
 
+/// the target as a reader of a sized type, which does not grow with each recursion
+fn emit_target_reader(target: &Target, is_async: bool) -> TokenStream {
+    match target {
+        Target::Stream(x) => {
+            let stream = emit_register(*x);
+            if is_async {
+                quote! { &mut (&mut *#stream as &mut (dyn AsyncBufRead + Unpin + Send + Sync)) }
+            } else {
+                quote! { &mut (&mut *#stream as &mut dyn BufRead) }
+            }
+        }
+        _ => emit_target(target),
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -203,23 +218,23 @@ fn prepare_decode(
                 if is_async {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
+                        let #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
+                            #input as &mut (dyn AsyncBufRead + Unpin + Send + Sync)
                         };
                     })
                 } else {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn Read = if #condition {
+                        let #new_stream_value: &mut dyn BufRead = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn Read
+                            #input as &mut dyn BufRead
                         };
                     })
                 }
@@ -241,7 +256,7 @@ fn prepare_decode(
             }
             Instruction::DecodeRef(target, source, class, args) => {
                 let out_arguments = flatten(args.iter().map(emit_ref_argument));
-                let target = emit_target(target);
+                let target = emit_target_reader(target, is_async);
                 let source = emit_register(*source);
                 let class = emit_ident(class);
                 if is_async {
diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index 805507c..8314bd6 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -14,7 +14,7 @@ impl ForeignTransform for Base64Transform {
         }
         quote! {
             {
-                base64::read::DecoderReader::new(#input_stream, base64::STANDARD)
+                std::io::BufReader::new(base64::read::DecoderReader::new(#input_stream, base64::STANDARD))
             }
         }
     }
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 343a142..555775b 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -11,11 +11,11 @@ impl ForeignTransform for GzipTransform {
     ) -> TokenStream {
         if is_async {
             quote! {
-                async_compression::tokio::bufread::GzipDecoder::new(#input_stream)
+                tokio::io::BufReader::new(async_compression::tokio::bufread::GzipDecoder::new(#input_stream))
             }
         } else {
             quote! {
-                flate2::read::GzDecoder::new(#input_stream)
+                std::io::BufReader::new(flate2::read::GzDecoder::new(#input_stream))
             }
         }
     }
-- 
2.43.0


From a46f2cfd5f1e354dcf8f3827573c346918237d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 25/94] fix: wrap optional streams in transforms of sized
 readers

---
 protospec-build/src/compiler/decoder.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 40ebfec..ff90c21 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -16,11 +16,12 @@ fn emit_target(target: &Target) -> TokenStream {
 /// the target as a fresh mutable borrow, to be owned by a transform
 fn emit_target_borrow(target: &Target) -> TokenStream {
     match target {
-        Target::Buf(_) => emit_target(target),
-        _ => {
-            let target = emit_target(target);
-            quote! { (&mut *#target) }
+        Target::Direct => quote! { (&mut *reader) },
+        Target::Stream(x) => {
+            let stream = emit_register(*x);
+            quote! { (&mut #stream) }
         }
+        Target::Buf(_) => emit_target(target),
     }
 }
 
@@ -184,7 +185,7 @@ fn prepare_decode(
                 let len = emit_register(*len);
                 statements.push(quote! {
                     let mut #new_stream = #stream.take(#len as u64);
-                    let #new_stream = &mut #new_stream;
+                    let mut #new_stream = &mut #new_stream;
                 });
             }
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
@@ -194,7 +195,7 @@ fn prepare_decode(
                 let transformed = transformer.inner.decoding_gen(input, args, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
-                    let #new_stream_value = &mut #new_stream_value;
+                    let mut #new_stream_value = &mut #new_stream_value;
                 })
             }
             Instruction::ConditionalWrapStream(
@@ -218,7 +219,7 @@ fn prepare_decode(
                 if is_async {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
+                        let mut #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
@@ -229,7 +230,7 @@ fn prepare_decode(
                 } else {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn BufRead = if #condition {
+                        let mut #new_stream_value: &mut dyn BufRead = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
@@ -444,7 +445,7 @@ fn prepare_decode(
 
                             {
                                 let mut #target = Cursor::new(r);
-                                let #target = &mut #target;
+                                let mut #target = &mut #target;
                                 while #target.position() < r_len {
                                     #inner
                                 }
-- 
2.43.0


From 90778201f3c6b4650ed8f6ca96f84a4a487a38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 26/94] fix: find the terminator of an array in any reader

---
 protospec-build/src/compiler/decoder.rs | 38 ++++++++++++++++---------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index ff90c21..a562c67 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -416,22 +416,34 @@ fn prepare_decode(
                         }
                     });
                 } else if let Some(terminator) = terminator {
+                    let (chain, reader_type) = if is_async {
+                        (
+                            quote! { AsyncReadExt::chain },
+                            quote! { &mut (dyn AsyncBufRead + Unpin + Send + Sync) },
+                        )
+                    } else {
+                        (quote! { Read::chain }, quote! { &mut dyn BufRead })
+                    };
                     statements.push(quote! {
                         let mut #output = Vec::new();
-                        loop {
-                            let buf = #target.fill_buf()#async_?;
-                            if buf.len() == 0 {
-                                break;
-                            }
-                            if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
-                            }
-                            if &buf[..#terminator.len()] == #terminator {
-                                #target.consume(#terminator.len());
-                                break;
+                        {
+                            // what is read of the next element to look for the terminator
+                            let mut lookahead: Vec<u8> = Vec::new();
+                            loop {
+                                let missing = #terminator.len().saturating_sub(lookahead.len());
+                                (&mut *#target).take(missing as u64).read_to_end(&mut lookahead)#async_?;
+                                if lookahead.is_empty() || lookahead[..] == #terminator[..] {
+                                    break;
+                                }
+                                let mut chained = #chain(Cursor::new(mem::take(&mut lookahead)), &mut *#target);
+                                {
+                                    let mut #target = &mut chained as #reader_type;
+                                    let mut #target = &mut #target;
+                                    #inner
+                                }
+                                let (unread, _) = chained.into_inner();
+                                lookahead = unread.get_ref()[unread.position() as usize..].to_vec();
                             }
-                            #inner
                         }
                     });
                 } else {
-- 
2.43.0


From 8639331391019a00e2c3a71c918e13500c0df8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 27/94] fix: apply the transforms of container variants of
 tagged enums

---
 protospec-build/src/coder/encode/container.rs |  4 +-
 protospec-build/src/coder/encode/field.rs     | 38 +++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 9efdd13..fffe9a4 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -229,7 +229,9 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        let (target, new_streams) = self.encode_transforms(buf_target, child);
+                        self.encode_container_items(type_, target, source, false);
+                        self.encode_end_transforms(&new_streams);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index fe8b49b..c749003 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -57,14 +57,13 @@ impl Context {
         }
     }
 
-    pub fn encode_field_unconditional(
+    /// wraps the target in the transforms of the field.
+    /// returned streams must be ended with [`Context::encode_end_transforms`]
+    pub fn encode_transforms(
         &mut self,
         mut target: Target,
-        source: usize,
         field: &Arc<Field>,
-        self_conditional: bool,
-        total_conditional: bool,
-    ) {
+    ) -> (Target, Vec<(usize, Option<usize>)>) {
         let mut new_streams = vec![];
 
         // what is wrapped last is written through first
@@ -111,6 +110,28 @@ impl Context {
             target = Target::Stream(new_stream);
         }
 
+        (target, new_streams)
+    }
+
+    pub fn encode_end_transforms(&mut self, streams: &[(usize, Option<usize>)]) {
+        for (stream, owned_stream) in streams.iter().rev() {
+            self.instructions.push(Instruction::EndStream(*stream));
+            if let Some(owned_stream) = owned_stream {
+                self.instructions.push(Instruction::Drop(*owned_stream));
+            }
+        }
+    }
+
+    pub fn encode_field_unconditional(
+        &mut self,
+        target: Target,
+        source: usize,
+        field: &Arc<Field>,
+        self_conditional: bool,
+        total_conditional: bool,
+    ) {
+        let (target, new_streams) = self.encode_transforms(target, field);
+
         let is_psuedocontainer =
             !field.toplevel && matches!(&*field.type_.borrow(), Type::Container(_));
 
@@ -148,11 +169,6 @@ impl Context {
             type_ => self.encode_complex_type(field, type_, target, source, total_conditional),
         }
 
-        for (stream, owned_stream) in new_streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
-            if let Some(owned_stream) = owned_stream {
-                self.instructions.push(Instruction::Drop(*owned_stream));
-            }
-        }
+        self.encode_end_transforms(&new_streams);
     }
 }
-- 
2.43.0


From 66060c32c3d5fbc4e9b3f1df71937bb0d877d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 28/94] fix: report errors of a sink at the end of a transform

---
 protospec-build/src/coder/encode/container.rs |  2 +-
 protospec-build/src/coder/encode/field.rs     | 19 ++++++++++---------
 .../src/coder/encode/instruction.rs           | 10 +++++++---
 protospec-build/src/compiler/encoder.rs       | 17 +++++++++++++++--
 protospec-build/src/ffi/transform.rs          | 12 +++++++++++-
 protospec-build/src/prelude/base64.rs         |  9 +++++++++
 protospec-build/src/prelude/gzip.rs           | 13 +++++++++++++
 7 files changed, 66 insertions(+), 16 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index fffe9a4..685d488 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -231,7 +231,7 @@ impl Context {
                         self.encode_container_calculated(type_);
                         let (target, new_streams) = self.encode_transforms(buf_target, child);
                         self.encode_container_items(type_, target, source, false);
-                        self.encode_end_transforms(&new_streams);
+                        self.encode_end_transforms(new_streams);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index c749003..ab3da89 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -63,7 +63,7 @@ impl Context {
         &mut self,
         mut target: Target,
         field: &Arc<Field>,
-    ) -> (Target, Vec<(usize, Option<usize>)>) {
+    ) -> (Target, Vec<(usize, Option<usize>, Arc<Transform>)>) {
         let mut new_streams = vec![];
 
         // what is wrapped last is written through first
@@ -86,7 +86,7 @@ impl Context {
             }
             let new_stream = self.alloc_register();
             let new_owned_stream = condition.map(|_| self.alloc_register());
-            new_streams.push((new_stream, new_owned_stream));
+            new_streams.push((new_stream, new_owned_stream, transform.transform.clone()));
 
             if let Some(condition) = condition {
                 let drained = self.instructions.drain(argument_start..).collect();
@@ -113,12 +113,13 @@ impl Context {
         (target, new_streams)
     }
 
-    pub fn encode_end_transforms(&mut self, streams: &[(usize, Option<usize>)]) {
-        for (stream, owned_stream) in streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
-            if let Some(owned_stream) = owned_stream {
-                self.instructions.push(Instruction::Drop(*owned_stream));
-            }
+    pub fn encode_end_transforms(
+        &mut self,
+        streams: Vec<(usize, Option<usize>, Arc<Transform>)>,
+    ) {
+        for (stream, owned_stream, transform) in streams.into_iter().rev() {
+            self.instructions
+                .push(Instruction::EndStream(stream, owned_stream, transform));
         }
     }
 
@@ -169,6 +170,6 @@ impl Context {
             type_ => self.encode_complex_type(field, type_, target, source, total_conditional),
         }
 
-        self.encode_end_transforms(&new_streams);
+        self.encode_end_transforms(new_streams);
     }
 }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index f3ffece..3a4cfc5 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -31,8 +31,8 @@ pub enum Instruction {
         Arc<Transform>,
         Vec<usize>,
     ),
-    /// stream
-    EndStream(usize),
+    /// stream, owned stream if it is conditional, transformer
+    EndStream(usize, Option<usize>, Arc<Transform>),
 
     /// dest, buf handle
     EmitBuf(Target, usize),
@@ -128,7 +128,11 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::EndStream(stream) => write!(f, "EndStream({})", stream),
+            Instruction::EndStream(stream, owned_stream, transform) => write!(
+                f,
+                "EndStream({}, {:?}, '{}')",
+                stream, owned_stream, transform.name
+            ),
             Instruction::EmitBuf(dest, buf_handle) => {
                 write!(f, "EmitBuf({:?}, {})", dest, buf_handle)
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 485e528..7bc5911 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -196,13 +196,26 @@ impl EncoderContext {
                         self.is_async,
                     ));
                 }
-                Instruction::EndStream(stream) => {
+                Instruction::EndStream(stream, None, transformer) => {
                     let stream = emit_register(*stream);
+                    let finish = transformer.inner.finish_gen(stream.clone(), self.is_async);
                     statements.push(quote! {
-                        #stream.flush()#async_?;
+                        #finish
                         drop(#stream);
                     });
                 }
+                Instruction::EndStream(_, Some(owned_stream), transformer) => {
+                    let owned_stream = emit_register(*owned_stream);
+                    let finish = transformer
+                        .inner
+                        .finish_gen(owned_stream.clone(), self.is_async);
+                    statements.push(quote! {
+                        // moved whole, to not be dropped any later
+                        if let Some(mut #owned_stream) = { #owned_stream } {
+                            #finish
+                        }
+                    });
+                }
                 Instruction::EmitBuf(target, buf) => {
                     let target = emit_target(target);
                     let buf = emit_register(*buf);
diff --git a/protospec-build/src/ffi/transform.rs b/protospec-build/src/ffi/transform.rs
index 84dffa6..dbfe14c 100644
--- a/protospec-build/src/ffi/transform.rs
+++ b/protospec-build/src/ffi/transform.rs
@@ -1,6 +1,7 @@
 use proc_macro2::TokenStream;
+use quote::quote;
 
-use crate::FFIArgument;
+use crate::{map_async, FFIArgument};
 
 pub type ForeignTransformObj = Box<dyn ForeignTransform + Send + Sync + 'static>;
 
@@ -19,5 +20,14 @@ pub trait ForeignTransform {
         is_async: bool,
     ) -> TokenStream;
 
+    /// output code should be statements that complete the stream emitted by [`ForeignTransform::encoding_gen`],
+    /// returning any error of the underlying stream. the stream is dropped afterwards.
+    fn finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        let async_ = map_async(is_async);
+        quote! {
+            #stream.flush()#async_?;
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument>;
 }
diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index 8314bd6..d957b41 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -33,6 +33,15 @@ impl ForeignTransform for Base64Transform {
         }
     }
 
+    fn finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        if is_async {
+            panic!("base64 async not implemented");
+        }
+        quote! {
+            #stream.finish()?.flush()?;
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 555775b..eaeb58d 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -37,6 +37,19 @@ impl ForeignTransform for GzipTransform {
         }
     }
 
+    fn finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        if is_async {
+            quote! {
+                #stream.flush().await?;
+            }
+        } else {
+            quote! {
+                #stream.try_finish()?;
+                #stream.get_mut().flush()?;
+            }
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
-- 
2.43.0


From 7eba0e121e7a357ad856b5769b035106796931c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 29/94] fix: encode base64 to sinks that write partially

---
 protospec-build/src/prelude/base64.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index d957b41..5198043 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -29,7 +29,8 @@ impl ForeignTransform for Base64Transform {
             panic!("base64 async not implemented");
         }
         quote! {
-            base64::write::EncoderWriter::new(#input_stream, base64::STANDARD)
+            // the encoder cannot be written to while its output is only partially written
+            base64::write::EncoderWriter::new(std::io::BufWriter::new(#input_stream), base64::STANDARD)
         }
     }
 
-- 
2.43.0


From d071890a6bc7b3743172a0a7c46af9c754f613a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 30/94] fix: report a stream that ends inside an element of an
 unbounded array

---
 protospec-build/src/compiler/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index a562c67..c97bc6e 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -359,6 +359,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                            }
                             raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
@@ -397,6 +400,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
-- 
2.43.0


From d9f6329fdafd252da2dda77ed9238bb2576f91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 31/94] fix: report a stream that ends before the terminator of
 an array or string

---
 protospec-build/src/compiler/decoder.rs | 5 ++++-
 protospec-build/src/prelude/utf8.rs     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index c97bc6e..1d530ef 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -438,9 +438,12 @@ fn prepare_decode(
                             loop {
                                 let missing = #terminator.len().saturating_sub(lookahead.len());
                                 (&mut *#target).take(missing as u64).read_to_end(&mut lookahead)#async_?;
-                                if lookahead.is_empty() || lookahead[..] == #terminator[..] {
+                                if lookahead[..] == #terminator[..] {
                                     break;
                                 }
+                                if lookahead.is_empty() {
+                                    Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                                }
                                 let mut chained = #chain(Cursor::new(mem::take(&mut lookahead)), &mut *#target);
                                 {
                                     let mut #target = &mut chained as #reader_type;
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 1cd8635..393b0fc 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -45,8 +45,8 @@ impl ForeignType for Utf8 {
                 let #output_ref = {
                     let mut t: Vec<u8> = vec![];
                     #source.read_until(0u8, &mut t)#async_?;
-                    if t.len() > 0 && t[t.len() - 1] == 0u8 {
-                        t.truncate(t.len() - 1);
+                    if t.pop() != Some(0u8) {
+                        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
                     }
                     String::from_utf8(t)?
                 };
-- 
2.43.0


From aad5012eafd7d34af38f6376086827090108dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 32/94] fix: refuse to encode a container that does not have
 its declared length

---
 protospec-build/src/coder/encode/array.rs       |  6 +++++-
 protospec-build/src/coder/encode/container.rs   | 16 +++++++++++-----
 protospec-build/src/coder/encode/instruction.rs | 11 +++++------
 protospec-build/src/compiler/encoder.rs         | 12 ++----------
 4 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 375563c..86c3b76 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,7 +89,11 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
-            self.instructions.push(Instruction::CheckLen(source, len));
+            self.instructions.push(Instruction::CheckLen(
+                source,
+                len,
+                "array does not have its declared length".to_string(),
+            ));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 685d488..4e6c852 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -175,18 +175,17 @@ impl Context {
         source: usize,
         conditional: bool,
     ) {
+        let mut declared_length = None;
         let buf_target = if let Some(length) = &type_.length {
             //todo: use limited stream
             let buf = self.alloc_register();
+            self.instructions.push(Instruction::AllocDynBuf(buf));
             // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-            if self.pending_autos.contains(&field.name) {
-                self.instructions.push(Instruction::AllocDynBuf(buf));
-            } else {
+            if !self.pending_autos.contains(&field.name) {
                 let len_register = self.alloc_register();
                 self.instructions
                     .push(Instruction::Eval(len_register, length.clone()));
-                self.instructions
-                    .push(Instruction::AllocBuf(buf, len_register));
+                declared_length = Some(len_register);
             }
             Target::Buf(buf)
         } else {
@@ -277,6 +276,13 @@ impl Context {
                 ));
                 self.resolved_autos.insert(field.name.clone(), target);
             }
+            if let Some(len) = declared_length {
+                self.instructions.push(Instruction::CheckLen(
+                    buf_target.unwrap_buf(),
+                    len,
+                    "container does not have its declared length".to_string(),
+                ));
+            }
             self.instructions
                 .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
         }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 3a4cfc5..66413d9 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -15,8 +15,6 @@ pub enum Instruction {
     GetRef(usize, String),
     /// ref name, value
     SetRef(String, usize),
-    /// buf handle, len register
-    AllocBuf(usize, usize),
     /// buf handle
     AllocDynBuf(usize),
     /// stream, new stream, transformer, arguments
@@ -58,8 +56,8 @@ pub enum Instruction {
     Loop(usize, usize, Vec<Instruction>),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
-    /// source, expected length
-    CheckLen(usize, usize),
+    /// source, expected length, message
+    CheckLen(usize, usize, String),
     /// register
     Drop(usize),
     /// original, checked, is_copyable, message
@@ -96,7 +94,6 @@ impl fmt::Display for Instruction {
             Instruction::SetRef(ref_name, source) => {
                 write!(f, "SetRef('{}', {})", ref_name, source)
             }
-            Instruction::AllocBuf(buf, len) => write!(f, "AllocBuf({}, {})", buf, len),
             Instruction::AllocDynBuf(buf) => write!(f, "AllocDynBuf({})", buf),
             Instruction::WrapStream(stream, new_stream, transform, arguments) => {
                 write!(
@@ -178,7 +175,9 @@ impl fmt::Display for Instruction {
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
-            Instruction::CheckLen(source, len) => write!(f, "CheckLen({}, {})", source, len),
+            Instruction::CheckLen(source, len, message) => {
+                write!(f, "CheckLen({}, {}, {:?})", source, len, message)
+            }
             Instruction::Drop(register) => write!(f, "Drop({})", register),
             Instruction::NullCheck(original, checked, is_copyable, message) => write!(
                 f,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 7bc5911..1fca320 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -88,14 +88,6 @@ impl EncoderContext {
                         let #target = #source;
                     });
                 }
-                Instruction::AllocBuf(buf, len) => {
-                    let buf = emit_register(*buf);
-                    let len = emit_register(*len);
-                    statements.push(quote! {
-                        //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
-                    });
-                }
                 Instruction::AllocDynBuf(buf) => {
                     let buf = emit_register(*buf);
                     statements.push(quote! {
@@ -127,12 +119,12 @@ impl EncoderContext {
                         let #len = #source.len() #cast;
                     });
                 }
-                Instruction::CheckLen(source, len) => {
+                Instruction::CheckLen(source, len, message) => {
                     let source = emit_register(*source);
                     let len = emit_register(*len);
                     statements.push(quote! {
                         if #len as usize != #source.len() {
-                            return Err(encode_error("array does not have its declared length").into());
+                            return Err(encode_error(#message).into());
                         }
                     });
                 }
-- 
2.43.0


From 657f08be4460d503a193778d129070ad68a7e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 33/94] fix: a container of a declared length occupies exactly
 that length when decoded

---
 protospec-build/src/coder/decode/container.rs   |  9 +++++++++
 protospec-build/src/coder/decode/instruction.rs |  2 ++
 protospec-build/src/compiler/decoder.rs         | 14 ++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/protospec-build/src/coder/decode/container.rs b/protospec-build/src/coder/decode/container.rs
index 078383c..00232e4 100644
--- a/protospec-build/src/coder/decode/container.rs
+++ b/protospec-build/src/coder/decode/container.rs
@@ -29,6 +29,13 @@ impl Context {
         }
     }
 
+    /// skips what is left of a container of a declared length
+    fn decode_container_end(&mut self, type_: &ContainerType, buf_target: Target) {
+        if let (Some(_), Target::Stream(buf)) = (&type_.length, buf_target) {
+            self.instructions.push(Instruction::EndConstrict(buf));
+        }
+    }
+
     fn decode_struct_container(
         &mut self,
         field: &Arc<Field>,
@@ -45,6 +52,7 @@ impl Context {
                 }
             }
         }
+        self.decode_container_end(type_, buf_target);
         if !field.toplevel {
             return decoded_fields;
         }
@@ -83,6 +91,7 @@ impl Context {
             let condition = self.decode_field_condition(child);
             let start = self.instructions.len();
             let decoded = self.decode_field_unconditional(buf_target, child);
+            self.decode_container_end(type_, buf_target);
             let target = self.alloc_register();
 
             let subtype = child.type_.borrow();
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 3678f52..87d1bae 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -29,6 +29,8 @@ pub enum Instruction {
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
+    // stream
+    EndConstrict(usize),
     WrapStream(Target, usize, Arc<Transform>, Vec<usize>), // stream, new stream, transformer, arguments
     ConditionalWrapStream(
         usize,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 1d530ef..5c14a52 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -188,6 +188,20 @@ fn prepare_decode(
                     let mut #new_stream = &mut #new_stream;
                 });
             }
+            Instruction::EndConstrict(stream) => {
+                let stream = emit_register(*stream);
+                let io = if is_async {
+                    quote! { tokio::io }
+                } else {
+                    quote! { std::io }
+                };
+                statements.push(quote! {
+                    #io::copy(&mut *#stream, &mut #io::sink())#async_?;
+                    if #stream.limit() > 0 {
+                        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                    }
+                });
+            }
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-- 
2.43.0


From 24cf19783583fb66eb8a822b11c3ff8da0be7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 34/94] fix: Default of an enum whose first entry is its
 default one

---
 protospec-build/src/compiler/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 5a6e330..9a13c36 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -547,12 +547,16 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let format_string = format!("illegal enum value '{{}}' for enum '{}'", name);
 
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
-        let (default_field, _) = item.items.first().expect("missing enum entry for default");
+        let (default_field, value) = item.items.first().expect("missing enum entry for default");
         let default_field = format_ident!("{}", default_field);
+        let default_value = match value {
+            EnumValue::Default => quote! { (Default::default()) },
+            EnumValue::Value(_) => quote! {},
+        };
         quote! {
             impl Default for #name_ident {
                 fn default() -> Self {
-                    Self::#default_field
+                    Self::#default_field#default_value
                 }
             }
         }
-- 
2.43.0


From b83555a59f40807ef3b884d5cf035d9e1598f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 35/94] fix: refuse to encode an alternative when no condition
 holds

---
 protospec-build/src/coder/encode/container.rs   | 9 +++++++++
 protospec-build/src/coder/encode/instruction.rs | 3 +++
 protospec-build/src/compiler/encoder.rs         | 6 +++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 4e6c852..72b9bb7 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -254,6 +254,15 @@ impl Context {
                         .push(Instruction::Conditional(condition, drained, vec![]));
                 }
             }
+            if type_
+                .items
+                .last()
+                .map_or(true, |(_, child)| child.condition.borrow().is_some())
+            {
+                self.instructions.push(Instruction::Error(
+                    "no enum discriminant has a matching condition".to_string(),
+                ));
+            }
             let drained = self.instructions.drain(break_start..).collect();
             self.instructions.push(Instruction::BreakBlock(drained));
         } else {
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 66413d9..ef3db80 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -71,6 +71,8 @@ pub enum Instruction {
     /// instructions
     BreakBlock(Vec<Instruction>),
     Break,
+    /// message
+    Error(String),
 }
 
 fn write_arguments(f: &mut fmt::Formatter<'_>, arguments: &[usize]) -> fmt::Result {
@@ -237,6 +239,7 @@ impl fmt::Display for Instruction {
                 Ok(())
             }
             Instruction::Break => write!(f, "Break()"),
+            Instruction::Error(message) => write!(f, "Error({:?})", message),
         }
     }
 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 1fca320..7a90e1e 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -442,7 +442,6 @@ impl EncoderContext {
                     statements.push(quote! {
                         'bb: loop {
                             #interior
-                            break 'bb;
                         }
                     });
                 }
@@ -451,6 +450,11 @@ impl EncoderContext {
                         break 'bb;
                     });
                 }
+                Instruction::Error(message) => {
+                    statements.push(quote! {
+                        return Err(encode_error(#message).into());
+                    });
+                }
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
                     let target = emit_target(target);
-- 
2.43.0


From 1bbb74150d5609b79c5546b7af05f2a61d17d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 36/94] fix: hold container variants of tagged enums to their
 declared length

---
 protospec-build/src/coder/encode/container.rs | 80 +++++++++++++------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 72b9bb7..8372cc9 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -167,14 +167,12 @@ impl Context {
         }
     }
 
-    pub fn encode_container(
+    fn begin_container_length(
         &mut self,
         field: &Arc<Field>,
         type_: &ContainerType,
         target: Target,
-        source: usize,
-        conditional: bool,
-    ) {
+    ) -> (Target, Option<usize>) {
         let mut declared_length = None;
         let buf_target = if let Some(length) = &type_.length {
             //todo: use limited stream
@@ -191,6 +189,48 @@ impl Context {
         } else {
             target
         };
+        (buf_target, declared_length)
+    }
+
+    fn end_container_length(
+        &mut self,
+        field: &Arc<Field>,
+        type_: &ContainerType,
+        target: Target,
+        buf_target: Target,
+        declared_length: Option<usize>,
+    ) {
+        if type_.length.is_some() {
+            if self.pending_autos.remove(&field.name) {
+                let target = self.alloc_register();
+                self.instructions.push(Instruction::GetLen(
+                    target,
+                    buf_target.unwrap_buf(),
+                    Some(ScalarType::U64),
+                ));
+                self.resolved_autos.insert(field.name.clone(), target);
+            }
+            if let Some(len) = declared_length {
+                self.instructions.push(Instruction::CheckLen(
+                    buf_target.unwrap_buf(),
+                    len,
+                    "container does not have its declared length".to_string(),
+                ));
+            }
+            self.instructions
+                .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
+        }
+    }
+
+    pub fn encode_container(
+        &mut self,
+        field: &Arc<Field>,
+        type_: &ContainerType,
+        target: Target,
+        source: usize,
+        conditional: bool,
+    ) {
+        let (buf_target, declared_length) = self.begin_container_length(field, type_, target);
         if type_.is_enum.get() {
             let break_start = self.instructions.len();
             for (name, child) in type_.items.iter() {
@@ -229,7 +269,16 @@ impl Context {
                         }
                         self.encode_container_calculated(type_);
                         let (target, new_streams) = self.encode_transforms(buf_target, child);
-                        self.encode_container_items(type_, target, source, false);
+                        let (interior, declared_length) =
+                            self.begin_container_length(child, type_, target);
+                        self.encode_container_items(type_, interior, source, false);
+                        self.end_container_length(
+                            child,
+                            type_,
+                            target,
+                            interior,
+                            declared_length,
+                        );
                         self.encode_end_transforms(new_streams);
                         self.instructions.push(Instruction::Break);
                     }
@@ -275,26 +324,7 @@ impl Context {
             self.encode_container_items(type_, buf_target, source, conditional);
         }
 
-        if type_.length.is_some() {
-            if self.pending_autos.remove(&field.name) {
-                let target = self.alloc_register();
-                self.instructions.push(Instruction::GetLen(
-                    target,
-                    buf_target.unwrap_buf(),
-                    Some(ScalarType::U64),
-                ));
-                self.resolved_autos.insert(field.name.clone(), target);
-            }
-            if let Some(len) = declared_length {
-                self.instructions.push(Instruction::CheckLen(
-                    buf_target.unwrap_buf(),
-                    len,
-                    "container does not have its declared length".to_string(),
-                ));
-            }
-            self.instructions
-                .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
-        }
+        self.end_container_length(field, type_, target, buf_target, declared_length);
     }
 }
 
-- 
2.43.0


From baa21796f2829069109b913aa7fcedec21932ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 37/94] fix: analyse the operand of a unary expression once

---
 protospec-build/src/semantics/convert/expression/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 05243b7..0cf311f 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -47,7 +47,7 @@ impl Scope {
         }
         Ok(UnaryExpression {
             op: expr.op.clone(),
-            inner: Box::new(Scope::convert_expr(self_, &expr.inner, expected_type)?),
+            inner,
             span: expr.span,
         })
     }
-- 
2.43.0


From dd72b8bb82a493fcf9016fd7540a83b5fe268034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 38/94] fix: do not analyse the left side of an expression
 again in vain

---
 protospec-build/src/semantics/convert/expression/binary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 246057a..dd8d7fa 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -27,7 +27,12 @@ impl Scope {
             Or | And => PartialType::Type(Type::Bool),
             _ => expected_type.clone(),
         };
+        // only what is expected of an untyped side can be learned from the other side
+        let inferrable = init_expected_type.into_type().is_none();
         let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
+        if !inferrable {
+            left = Ok(left?);
+        }
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
             Scope::convert_expr(self_, &expr.right, left_type.into())?
         } else {
-- 
2.43.0


From 9679a16ac0df8cccd9951a7fc79435a33b681b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 39/94] fix: refuse constant expressions that have no value

---
 .../src/asg/expression/const_int.rs           | 45 +++++++++++++++----
 protospec-build/src/compiler/expr.rs          | 23 +++-------
 protospec-build/src/compiler/mod.rs           |  2 +-
 .../semantics/convert/expression/binary.rs    | 15 +++++--
 .../src/semantics/convert/expression/mod.rs   | 23 +++++++---
 .../src/semantics/convert/expression/unary.rs | 11 +++--
 .../src/semantics/convert/program/const_.rs   |  3 +-
 .../src/semantics/convert/type_/bitfield.rs   | 17 ++++---
 .../src/semantics/convert/type_/enum_.rs      |  4 ++
 protospec-build/src/semantics/error.rs        |  2 +
 10 files changed, 99 insertions(+), 46 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index b08936e..f22b067 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::convert::TryFrom;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum ConstInt {
@@ -118,7 +119,13 @@ impl Shr for ConstInt {
     type Output = Option<Self>;
 
     fn shr(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 >> i2)
+        const_int_biop_map!(
+            self,
+            other,
+            i1,
+            i2,
+            i1.checked_shr(u32::try_from(i2).ok()?)?
+        )
     }
 }
 
@@ -126,7 +133,13 @@ impl Shl for ConstInt {
     type Output = Option<Self>;
 
     fn shl(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 << i2)
+        const_int_biop_map!(
+            self,
+            other,
+            i1,
+            i2,
+            i1.checked_shl(u32::try_from(i2).ok()?)?
+        )
     }
 }
 
@@ -134,7 +147,7 @@ impl Add for ConstInt {
     type Output = Option<Self>;
 
     fn add(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 + i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_add(i2)?)
     }
 }
 
@@ -142,7 +155,7 @@ impl Sub for ConstInt {
     type Output = Option<Self>;
 
     fn sub(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 - i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_sub(i2)?)
     }
 }
 
@@ -150,7 +163,7 @@ impl Mul for ConstInt {
     type Output = Option<Self>;
 
     fn mul(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 * i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_mul(i2)?)
     }
 }
 
@@ -158,7 +171,7 @@ impl Div for ConstInt {
     type Output = Option<Self>;
 
     fn div(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 / i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_div(i2)?)
     }
 }
 
@@ -166,16 +179,15 @@ impl Rem for ConstInt {
     type Output = Option<Self>;
 
     fn rem(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 % i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_rem(i2)?)
     }
 }
 
 impl Neg for ConstInt {
     type Output = Option<Self>;
 
-    #[allow(unreachable_code, unused_variables)]
     fn neg(self) -> Self::Output {
-        const_int_map!(self, i1, -i1, unimplemented!("cannot neg unsigned value"))
+        const_int_map!(self, i1, i1.checked_neg()?, i1.checked_neg()?)
     }
 }
 
@@ -188,6 +200,21 @@ impl Not for ConstInt {
 }
 
 impl ConstInt {
+    pub fn scalar_type(&self) -> ScalarType {
+        match self {
+            ConstInt::I8(_) => ScalarType::I8,
+            ConstInt::I16(_) => ScalarType::I16,
+            ConstInt::I32(_) => ScalarType::I32,
+            ConstInt::I64(_) => ScalarType::I64,
+            ConstInt::I128(_) => ScalarType::I128,
+            ConstInt::U8(_) => ScalarType::U8,
+            ConstInt::U16(_) => ScalarType::U16,
+            ConstInt::U32(_) => ScalarType::U32,
+            ConstInt::U64(_) => ScalarType::U64,
+            ConstInt::U128(_) => ScalarType::U128,
+        }
+    }
+
     pub fn cast_to(&self, target: ScalarType) -> Self {
         const_int_op!(
             self,
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 4c52215..ac9335c 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -191,9 +191,8 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                 BinaryOp::Mul => ConstValue::Int((left.to_int()? * right.to_int()?)?),
                 BinaryOp::Div => ConstValue::Int((left.to_int()? / right.to_int()?)?),
                 BinaryOp::Mod => ConstValue::Int((left.to_int()? % right.to_int()?)?),
-                BinaryOp::Elvis => {
-                    unimplemented!("cannot use elvis operator (?:) in const context")
-                }
+                // only fields are optional
+                BinaryOp::Elvis => return None,
             })
         }
         Member(c) => {
@@ -204,7 +203,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                     // todo: find better way to get same-typed zero
                     Some(ConstValue::Bool((target & member)? != (member - member)?))
                 }
-                _ => unimplemented!("can not use member exprs on nonint targets"),
+                _ => None,
             }
         }
         Unary(c) => {
@@ -219,18 +218,12 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             let inner = eval_const_expression(&c.inner)?;
             inner.cast_to(&c.type_)
         }
-        ArrayIndex(_) => {
-            unimplemented!("can not use array indexing in const")
-        }
+        ArrayIndex(_) => None,
         EnumAccess(c) => eval_const_expression(&c.variant.value),
         Int(c) => Some(ConstValue::Int(c.value)),
         ConstRef(c) => eval_const_expression(&c.value),
-        InputRef(_) => {
-            unimplemented!("cannot access input in constant");
-        }
-        FieldRef(_) => {
-            unimplemented!("cannot access field in constant");
-        }
+        InputRef(_) => None,
+        FieldRef(_) => None,
         Str(c) => Some(ConstValue::String(c.content.clone())),
         Ternary(c) => {
             let condition = eval_const_expression(&c.condition)?;
@@ -244,9 +237,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             }
         }
         Bool(c) => Some(ConstValue::Bool(*c)),
-        Call(_) => {
-            unimplemented!("cannot call ffi in constant");
-        }
+        Call(_) => None,
     }
 }
 
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 9a13c36..376194f 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -10,7 +10,7 @@ use std::{sync::Arc, unimplemented};
 
 mod decoder;
 mod encoder;
-mod expr;
+pub(crate) mod expr;
 
 pub fn global_name(input: &str) -> String {
     input.to_string()
diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index dd8d7fa..09996bd 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -5,7 +5,7 @@ impl Scope {
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::BinaryExpression,
         expected_type: PartialType,
-    ) -> AsgResult<BinaryExpression> {
+    ) -> AsgResult<Expression> {
         use ast::BinaryOp::*;
         match expr.op {
             Lt | Gt | Lte | Gte | Eq | Ne | Or | And => {
@@ -47,11 +47,18 @@ impl Scope {
             }
             right
         };
-        Ok(BinaryExpression {
+        let left = left?;
+        let constant =
+            eval_const_expression(&left).is_some() && eval_const_expression(&right).is_some();
+        let binary = Expression::Binary(BinaryExpression {
             op: expr.op.clone(),
-            left: Box::new(left.unwrap()),
+            left: Box::new(left),
             right: Box::new(right),
             span: expr.span,
-        })
+        });
+        if constant && eval_const_expression(&binary).is_none() {
+            return Err(AsgError::InvalidConstExpression(expr.span));
+        }
+        Ok(binary)
     }
 }
diff --git a/protospec-build/src/semantics/convert/expression/mod.rs b/protospec-build/src/semantics/convert/expression/mod.rs
index 032d121..6b841d8 100644
--- a/protospec-build/src/semantics/convert/expression/mod.rs
+++ b/protospec-build/src/semantics/convert/expression/mod.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::compiler::expr::{eval_const_expression, ConstValue};
 
 mod binary;
 
@@ -33,12 +34,8 @@ impl Scope {
         use ast::Expression::*;
         let coerce_to = expected_type.clone();
         let expression = match expr {
-            Binary(expr) => {
-                Expression::Binary(Self::convert_binary_expression(self_, expr, expected_type)?)
-            }
-            Unary(expr) => {
-                Expression::Unary(Self::convert_unary_expression(self_, expr, expected_type)?)
-            }
+            Binary(expr) => Self::convert_binary_expression(self_, expr, expected_type)?,
+            Unary(expr) => Self::convert_unary_expression(self_, expr, expected_type)?,
             Cast(expr) => {
                 Expression::Cast(Self::convert_cast_expression(self_, expr, expected_type)?)
             }
@@ -76,6 +73,20 @@ impl Scope {
 }
 
 impl Expression {
+    /// the value of an expression of constants in place of the expression
+    pub(crate) fn fold(self, span: Span) -> Self {
+        match eval_const_expression(&self) {
+            Some(ConstValue::Int(value)) => Expression::Int(Int {
+                value,
+                type_: value.scalar_type(),
+                span,
+            }),
+            Some(ConstValue::Bool(value)) => Expression::Bool(value),
+            Some(ConstValue::String(content)) => Expression::Str(ast::Str { content, span }),
+            _ => self,
+        }
+    }
+
     pub(crate) fn assign_to_or_coerce_to(
         mut self,
         expected_type: PartialType,
diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 0cf311f..cf2d06a 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -5,7 +5,7 @@ impl Scope {
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::UnaryExpression,
         expected_type: PartialType,
-    ) -> AsgResult<UnaryExpression> {
+    ) -> AsgResult<Expression> {
         let inner = Box::new(Scope::convert_expr(
             self_,
             &expr.inner,
@@ -45,10 +45,15 @@ impl Scope {
                 }
             }
         }
-        Ok(UnaryExpression {
+        let constant = eval_const_expression(&inner).is_some();
+        let unary = Expression::Unary(UnaryExpression {
             op: expr.op.clone(),
             inner,
             span: expr.span,
-        })
+        });
+        if constant && eval_const_expression(&unary).is_none() {
+            return Err(AsgError::InvalidConstExpression(expr.span));
+        }
+        Ok(unary)
     }
 }
diff --git a/protospec-build/src/semantics/convert/program/const_.rs b/protospec-build/src/semantics/convert/program/const_.rs
index 55157eb..0d5b1ee 100644
--- a/protospec-build/src/semantics/convert/program/const_.rs
+++ b/protospec-build/src/semantics/convert/program/const_.rs
@@ -26,7 +26,8 @@ impl Scope {
             }
             _ => (),
         }
-        let value = Scope::convert_expr(&scope, &const_.value, type_.clone().into())?;
+        let value = Scope::convert_expr(&scope, &const_.value, type_.clone().into())?
+            .fold(const_.span);
         program.borrow_mut().consts.insert(
             const_.name.name.clone(),
             Arc::new(Const {
diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 75c8174..c4ce562 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -18,11 +18,7 @@ impl Scope {
                 ));
             }
             //todo: static eval here
-            let cons = Arc::new(Const {
-                name: name.name.clone(),
-                span: type_.span,
-                type_: Type::Scalar(type_.rep),
-                value: match item {
+            let value = match item {
                     Some(expr) => Scope::convert_expr(
                         self_,
                         &**expr,
@@ -44,7 +40,16 @@ impl Scope {
                         })),
                         span: type_.span,
                     }),
-                },
+            }
+            .fold(name.span);
+            if !matches!(value, Expression::Int(_)) {
+                return Err(AsgError::InvalidConstExpression(name.span));
+            }
+            let cons = Arc::new(Const {
+                name: name.name.clone(),
+                span: type_.span,
+                type_: Type::Scalar(type_.rep),
+                value,
             });
             if item.is_some() {
                 last_defined_item = Some(cons.clone());
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index e252a49..6941a02 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -54,6 +54,10 @@ impl Scope {
                             span: type_.span,
                         }),
                     };
+                    let value = value.fold(name.span);
+                    if !matches!(value, Expression::Int(_)) {
+                        return Err(AsgError::InvalidConstExpression(name.span));
+                    }
                     EnumValue::Value(Arc::new(Const {
                         name: name.name.clone(),
                         span: type_.span,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 92b5aa2..8d77133 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -63,6 +63,8 @@ pub enum AsgError {
     UninferredType(Span),
     #[error("could not parse int {0} @ {1} @ {1}")]
     InvalidInt(String, Span),
+    #[error("constant expression has no value @ {0}")]
+    InvalidConstExpression(Span),
     #[error("invalid number of arguments for ffi, expected {0} to {1} arguments, got {2} @ {3}")]
     InvalidFFIArgumentCount(usize, usize, usize, Span),
     #[error("invalid number of arguments for type, expected {0} to {1} arguments, got {2} @ {3}")]
-- 
2.43.0


From 50da757eaca5ccf3af3baf7d5d5b350c74958bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 40/94] fix: do not analyse typed operands again in vain

---
 .../semantics/convert/expression/binary.rs    | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 09996bd..5dc7f09 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -1,6 +1,37 @@
 use super::*;
 
 impl Scope {
+    /// whether the type of the expression can depend on the type expected of it
+    fn is_untyped_expression(expr: &ast::Expression) -> bool {
+        use ast::BinaryOp::*;
+        match expr {
+            ast::Expression::Int(expr) => expr.type_.is_none(),
+            // foreign types can stand for several types
+            ast::Expression::Ref(_) => true,
+            ast::Expression::Cast(expr) => Self::is_untyped_expression(&expr.inner),
+            ast::Expression::ArrayIndex(expr) => Self::is_untyped_expression(&expr.array),
+            ast::Expression::Call(expr) => expr.arguments.iter().all(|x| {
+                matches!(
+                    x,
+                    ast::Expression::Ref(_) | ast::Expression::Int(_) | ast::Expression::Str(_)
+                )
+            }),
+            ast::Expression::Unary(expr) => Self::is_untyped_expression(&expr.inner),
+            ast::Expression::Ternary(expr) => {
+                Self::is_untyped_expression(&expr.if_true)
+                    || Self::is_untyped_expression(&expr.if_false)
+            }
+            ast::Expression::Binary(expr) => match expr.op {
+                Lt | Gt | Lte | Gte | Eq | Ne | Or | And => false,
+                _ => {
+                    Self::is_untyped_expression(&expr.left)
+                        || Self::is_untyped_expression(&expr.right)
+                }
+            },
+            _ => false,
+        }
+    }
+
     pub(super) fn convert_binary_expression(
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::BinaryExpression,
@@ -28,7 +59,8 @@ impl Scope {
             _ => expected_type.clone(),
         };
         // only what is expected of an untyped side can be learned from the other side
-        let inferrable = init_expected_type.into_type().is_none();
+        let inferrable =
+            init_expected_type.into_type().is_none() && Scope::is_untyped_expression(&expr.left);
         let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
         if !inferrable {
             left = Ok(left?);
-- 
2.43.0


From d17cd5acb77aa7a9262dd484d44d6a8b8241f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 41/94] fix: refuse types which refer to nothing but themselves

---
 protospec-build/src/asg/types/mod.rs           | 10 ++++++++++
 protospec-build/src/semantics/convert/field.rs |  3 +++
 protospec-build/src/semantics/error.rs         |  2 ++
 3 files changed, 15 insertions(+)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 7dd958d..60ae5d9 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -86,6 +86,16 @@ impl Type {
         }
     }
 
+    /// whether the type is a chain of references which reaches the field
+    pub(crate) fn refers_to(&self, field: &Arc<Field>) -> bool {
+        match self {
+            Type::Ref(x) => {
+                Arc::ptr_eq(&x.target, field) || x.target.type_.borrow().refers_to(field)
+            }
+            _ => false,
+        }
+    }
+
     /// looks through a reference only if its target is encoded exactly like its type
     pub fn inlined(&self) -> Cow<'_, Type> {
         match self {
diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 9acb1cd..5d9c945 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -57,6 +57,9 @@ impl Scope {
         };
 
         let asg_type = Scope::convert_ast_type(&sub_scope, &field.type_.raw_type, purpose)?;
+        if asg_type.refers_to(into) {
+            return Err(AsgError::RecursiveType(into.name.clone(), field.span));
+        }
 
         let condition = if let Some(condition) = &field.condition {
             Some(Scope::convert_expr(
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 8d77133..59c7455 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -37,6 +37,8 @@ pub enum AsgError {
     BitfieldFlagRedefinition(String, Span, Span),
     #[error("container field name already in use: '{0}' @ {1}, originally declared at {2}")]
     ContainerFieldRedefinition(String, Span, Span),
+    #[error("type '{0}' @ {1} refers to nothing but itself")]
+    RecursiveType(String, Span),
     #[error("referenced type '{0}' @ {1} not found")]
     UnresolvedType(String, Span),
     #[error("referenced variable '{0}' @ {1} not found")]
-- 
2.43.0


From 9d740a9914e6c8008afc10800324dcf7e8ece32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 42/94] fix: refuse blen where the encoder cannot measure its
 target

---
 .../src/semantics/convert/expression/call.rs  | 10 +++++++
 .../src/semantics/convert/field.rs            |  1 +
 .../src/semantics/convert/program/mod.rs      |  1 +
 .../src/semantics/convert/type_/container.rs  |  4 +++
 protospec-build/src/semantics/error.rs        |  2 ++
 protospec-build/src/semantics/scope.rs        | 26 +++++++++++++++++++
 6 files changed, 44 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/call.rs b/protospec-build/src/semantics/convert/expression/call.rs
index e07e7ff..0713827 100644
--- a/protospec-build/src/semantics/convert/expression/call.rs
+++ b/protospec-build/src/semantics/convert/expression/call.rs
@@ -26,6 +26,16 @@ impl Scope {
             &function.arguments[..],
         )?;
 
+        if function.name == "blen" {
+            let target = match arguments.first() {
+                Some(Expression::FieldRef(target)) => target,
+                _ => return Err(AsgError::InvalidBlen(expr.span)),
+            };
+            if !scope.can_measure(target) {
+                return Err(AsgError::InvalidBlen(expr.span));
+            }
+        }
+
         Ok(CallExpression {
             function,
             arguments,
diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 5d9c945..83a3ca8 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -11,6 +11,7 @@ impl Scope {
             program: self_.borrow().program.clone(),
             declared_fields: IndexMap::new(),
             declared_inputs: IndexMap::new(),
+            calculates: None,
         }));
 
         let mut arguments = vec![];
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..54c1256 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -40,6 +40,7 @@ impl Program {
                 program: program.clone(),
                 declared_fields: IndexMap::new(),
                 declared_inputs: IndexMap::new(),
+                calculates: None,
             }));
 
             // import prelude ffis
diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 8691dec..79ae392 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -38,6 +38,7 @@ impl Scope {
             program: self_.borrow().program.clone(),
             declared_fields: IndexMap::new(),
             declared_inputs: IndexMap::new(),
+            calculates: None,
         }));
 
         let mut had_unconditional_field = false;
@@ -127,6 +128,9 @@ impl Scope {
             }
         }
         for (out_field, sub_scope, ast_field) in field_scopes {
+            if !is_enum {
+                sub_scope.borrow_mut().calculates = Some(out_field.clone());
+            }
             Scope::convert_ast_field_end(&sub_scope, &ast_field, &out_field)?;
         }
 
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 59c7455..6a18708 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -85,6 +85,8 @@ pub enum AsgError {
     EnumContainerFieldAfterUnconditional(Span),
     #[error("cannot have pad in enum container @ {0}")]
     EnumContainerPad(Span),
+    #[error("blen only gives the length of a later container with a declared length to a calculated field next to it @ {0}")]
+    InvalidBlen(Span),
     #[error("type `{0}` does not implement auto receiving @ {1}")]
     TypeNotAutoCompatible(String, Span),
     #[error("referenced bitfield member `{0}` does not exist @ {1}")]
diff --git a/protospec-build/src/semantics/scope.rs b/protospec-build/src/semantics/scope.rs
index e58facc..be0d329 100644
--- a/protospec-build/src/semantics/scope.rs
+++ b/protospec-build/src/semantics/scope.rs
@@ -6,4 +6,30 @@ pub struct Scope {
     pub program: Arc<RefCell<Program>>,
     pub declared_fields: IndexMap<String, Arc<Field>>,
     pub declared_inputs: IndexMap<String, Arc<Input>>,
+    /// the container field whose value is calculated in this scope
+    pub calculates: Option<Arc<Field>>,
+}
+
+impl Scope {
+    /// whether the encoder can tell the encoded length of the field in this scope:
+    /// it is a later container with a length next to the field being calculated
+    pub(super) fn can_measure(&self, target: &Arc<Field>) -> bool {
+        if !matches!(&*target.type_.borrow(), Type::Container(x) if x.length.is_some()) {
+            return false;
+        }
+        let (calculates, container) = match (&self.calculates, &self.parent_scope) {
+            (Some(calculates), Some(container)) => (calculates, container.borrow()),
+            _ => return false,
+        };
+        let position = |field: &Arc<Field>| {
+            container
+                .declared_fields
+                .values()
+                .position(|x| Arc::ptr_eq(x, field))
+        };
+        match (position(calculates), position(target)) {
+            (Some(calculates), Some(target)) => calculates < target,
+            _ => false,
+        }
+    }
 }
-- 
2.43.0


From 0c65b1788c563338a0eabf8d38b0b159561bd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 43/94] fix: refuse tagged enums without variants

---
 protospec-build/src/semantics/convert/type_/container.rs | 4 ++++
 protospec-build/src/semantics/error.rs                   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 79ae392..8c12bd3 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -32,6 +32,10 @@ impl Scope {
             return Err(AsgError::MustBeToplevel(type_.span));
         }
 
+        if is_enum && type_.items.is_empty() {
+            return Err(AsgError::EmptyEnumContainer(type_.span));
+        }
+
         let mut items: IndexMap<String, Arc<Field>> = IndexMap::new();
         let sub_scope = Arc::new(RefCell::new(Scope {
             parent_scope: Some(self_.clone()),
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 6a18708..524b809 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -85,6 +85,8 @@ pub enum AsgError {
     EnumContainerFieldAfterUnconditional(Span),
     #[error("cannot have pad in enum container @ {0}")]
     EnumContainerPad(Span),
+    #[error("container enum has no variants @ {0}")]
+    EmptyEnumContainer(Span),
     #[error("blen only gives the length of a later container with a declared length to a calculated field next to it @ {0}")]
     InvalidBlen(Span),
     #[error("type `{0}` does not implement auto receiving @ {1}")]
-- 
2.43.0


From c9ff17d59208f1a402189087a908b6fc628d49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 44/94] fix: refuse len of containers and sum of anything but
 numbers

---
 protospec-build/src/ffi/function.rs                 |  5 +++++
 protospec-build/src/prelude/len.rs                  |  4 ++++
 protospec-build/src/prelude/sum.rs                  |  4 ++++
 .../src/semantics/convert/expression/call.rs        | 13 +++++++++++++
 protospec-build/src/semantics/error.rs              |  2 ++
 5 files changed, 28 insertions(+)

diff --git a/protospec-build/src/ffi/function.rs b/protospec-build/src/ffi/function.rs
index f21af49..c1c41da 100644
--- a/protospec-build/src/ffi/function.rs
+++ b/protospec-build/src/ffi/function.rs
@@ -9,5 +9,10 @@ pub trait ForeignFunction {
 
     fn return_type(&self) -> Type;
 
+    /// whether an argument declared without a type can have this one
+    fn accepts(&self, _type: &Type) -> bool {
+        true
+    }
+
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream;
 }
diff --git a/protospec-build/src/prelude/len.rs b/protospec-build/src/prelude/len.rs
index 48b3af4..b8015fe 100644
--- a/protospec-build/src/prelude/len.rs
+++ b/protospec-build/src/prelude/len.rs
@@ -50,6 +50,10 @@ impl ForeignFunction for LenFunction {
         Type::Scalar(ScalarType::U64.into())
     }
 
+    fn accepts(&self, type_: &Type) -> bool {
+        !matches!(type_.resolved().as_ref(), Type::Container(_))
+    }
+
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
         self.len(&arguments[0].type_, &arguments[0].value)
     }
diff --git a/protospec-build/src/prelude/sum.rs b/protospec-build/src/prelude/sum.rs
index f7c75b9..a9ea36c 100644
--- a/protospec-build/src/prelude/sum.rs
+++ b/protospec-build/src/prelude/sum.rs
@@ -15,6 +15,10 @@ impl ForeignFunction for SumFunction {
         Type::Scalar(ScalarType::U64.into())
     }
 
+    fn accepts(&self, type_: &Type) -> bool {
+        matches!(type_, Type::Array(inner) if matches!(&*inner.element, Type::Scalar(_)))
+    }
+
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
         let type_ = &arguments[0].type_;
         match type_ {
diff --git a/protospec-build/src/semantics/convert/expression/call.rs b/protospec-build/src/semantics/convert/expression/call.rs
index 0713827..a384368 100644
--- a/protospec-build/src/semantics/convert/expression/call.rs
+++ b/protospec-build/src/semantics/convert/expression/call.rs
@@ -26,6 +26,19 @@ impl Scope {
             &function.arguments[..],
         )?;
 
+        for (argument, declared) in arguments.iter().zip(function.arguments.iter()) {
+            match argument.get_type() {
+                Some(type_) if declared.type_.is_none() && !function.inner.accepts(&type_) => {
+                    return Err(AsgError::InvalidFunctionInput(
+                        function.name.clone(),
+                        type_.to_string(),
+                        expr.span,
+                    ))
+                }
+                _ => (),
+            }
+        }
+
         if function.name == "blen" {
             let target = match arguments.first() {
                 Some(Expression::FieldRef(target)) => target,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 524b809..2301bad 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -87,6 +87,8 @@ pub enum AsgError {
     EnumContainerPad(Span),
     #[error("container enum has no variants @ {0}")]
     EmptyEnumContainer(Span),
+    #[error("function '{0}' does not take arguments of type {1} @ {2}")]
+    InvalidFunctionInput(String, String, Span),
     #[error("blen only gives the length of a later container with a declared length to a calculated field next to it @ {0}")]
     InvalidBlen(Span),
     #[error("type `{0}` does not implement auto receiving @ {1}")]
-- 
2.43.0


From 11f3909cebf3f85dcdaeb3fa0d7079cca0d5bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 45/94] fix: refuse inline containers as values

---
 .../src/semantics/convert/expression/call.rs  | 25 +++++++++++++------
 .../semantics/convert/expression/var_ref.rs   | 10 +++++++-
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/semantics/convert/expression/call.rs b/protospec-build/src/semantics/convert/expression/call.rs
index a384368..1a4978f 100644
--- a/protospec-build/src/semantics/convert/expression/call.rs
+++ b/protospec-build/src/semantics/convert/expression/call.rs
@@ -18,13 +18,24 @@ impl Scope {
             })?
             .clone();
 
-        let arguments = Self::convert_ffi_arguments(
-            self_,
-            &*function.name,
-            expr.span,
-            &expr.arguments[..],
-            &function.arguments[..],
-        )?;
+        let arguments = match &expr.arguments[..] {
+            // what is measured is the field, not its value
+            [ast::Expression::Ref(target)] if function.name == "blen" => {
+                match Scope::resolve_field(self_, &target.name) {
+                    Some(target) => vec![Expression::FieldRef(target)],
+                    None => {
+                        return Err(AsgError::UnresolvedVar(target.name.clone(), target.span));
+                    }
+                }
+            }
+            arguments => Self::convert_ffi_arguments(
+                self_,
+                &*function.name,
+                expr.span,
+                arguments,
+                &function.arguments[..],
+            )?,
+        };
 
         for (argument, declared) in arguments.iter().zip(function.arguments.iter()) {
             match argument.get_type() {
diff --git a/protospec-build/src/semantics/convert/expression/var_ref.rs b/protospec-build/src/semantics/convert/expression/var_ref.rs
index 44978c9..d9d6fae 100644
--- a/protospec-build/src/semantics/convert/expression/var_ref.rs
+++ b/protospec-build/src/semantics/convert/expression/var_ref.rs
@@ -4,9 +4,17 @@ impl Scope {
     pub(super) fn convert_ref_expression(
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::Ident,
-        _expected_type: PartialType,
+        expected_type: PartialType,
     ) -> AsgResult<Expression> {
         let expression = if let Some(field) = Scope::resolve_field(self_, &expr.name) {
+            // the fields of an inline container are part of the one around it
+            if !field.toplevel && matches!(&*field.type_.borrow(), Type::Container(_)) {
+                return Err(AsgError::UnexpectedType(
+                    field.type_.borrow().to_string(),
+                    expected_type.to_string(),
+                    expr.span,
+                ));
+            }
             Expression::FieldRef(field)
         } else if let Some(input) = Scope::resolve_input(self_, &expr.name) {
             Expression::InputRef(input)
-- 
2.43.0


From 647d9912a37f05df3cb19c59786cce3fbefad9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 46/94] fix: refuse containers declared in the arguments of
 types

---
 protospec-build/src/semantics/convert/type_/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protospec-build/src/semantics/convert/type_/mod.rs b/protospec-build/src/semantics/convert/type_/mod.rs
index 33694c7..3a4230a 100644
--- a/protospec-build/src/semantics/convert/type_/mod.rs
+++ b/protospec-build/src/semantics/convert/type_/mod.rs
@@ -27,6 +27,9 @@ impl Scope {
     ) -> AsgResult<Type> {
         Ok(match typ {
             ast::RawType::Container(type_) => {
+                if matches!(purpose, TypePurpose::Expression) {
+                    return Err(AsgError::IllegalComplexTypeDefinition(type_.span));
+                }
                 if matches!(purpose, TypePurpose::ArrayInterior) {
                     return Err(AsgError::InlineRepetition(type_.span));
                 }
-- 
2.43.0


From 5a20f011242dee8b665104c856f35191784a634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 47/94] fix: encode calculated lengths and what lies between
 them in order

---
 protospec-build/src/coder/encode/container.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 8372cc9..73da696 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -152,8 +152,9 @@ impl Context {
                         self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
 
                     auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
+                    let target = i
+                        .checked_sub(1)
+                        .and_then(|i| auto_targets.get(i))
                         .map(|(target, _)| Target::Buf(*target))
                         .unwrap_or(buf_target);
                     self.encode_field(target, calculated_register, auto_field, conditional);
-- 
2.43.0


From e86ed68ea228b020edb629f602c0d6df4079cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 48/94] fix: calculate fields after those they are calculated
 from

---
 protospec-build/src/asg/expression/mod.rs     | 45 +++++++++++++++++++
 protospec-build/src/coder/encode/container.rs | 22 +++++++--
 2 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/asg/expression/mod.rs b/protospec-build/src/asg/expression/mod.rs
index 3b4022e..000262f 100644
--- a/protospec-build/src/asg/expression/mod.rs
+++ b/protospec-build/src/asg/expression/mod.rs
@@ -52,6 +52,51 @@ pub enum Expression {
     Member(MemberExpression),
 }
 
+impl Expression {
+    /// calls the function with the expression and all those inside of it
+    pub(crate) fn visit(&self, f: &mut dyn FnMut(&Expression)) {
+        use Expression::*;
+        f(self);
+        match self {
+            Binary(e) => {
+                e.left.visit(f);
+                e.right.visit(f);
+            }
+            Unary(e) => e.inner.visit(f),
+            Cast(e) => e.inner.visit(f),
+            ArrayIndex(e) => {
+                e.array.visit(f);
+                e.index.visit(f);
+            }
+            Ternary(e) => {
+                e.condition.visit(f);
+                e.if_true.visit(f);
+                e.if_false.visit(f);
+            }
+            Call(e) => e.arguments.iter().for_each(|e| e.visit(f)),
+            Member(e) => e.target.visit(f),
+            EnumAccess(_) | Int(_) | ConstRef(_) | InputRef(_) | FieldRef(_) | Str(_) | Bool(_) => {
+            }
+        }
+    }
+
+    /// the fields whose values the expression needs
+    pub(crate) fn needed_fields(&self) -> Vec<Arc<Field>> {
+        let mut measured = vec![];
+        let mut out = vec![];
+        self.visit(&mut |e| match e {
+            Expression::Call(e) if e.function.name == "blen" => {
+                measured.extend(e.arguments.iter().map(|e| e as *const Expression));
+            }
+            Expression::FieldRef(field) if !measured.contains(&(e as *const _)) => {
+                out.push(field.clone());
+            }
+            _ => (),
+        });
+        out
+    }
+}
+
 impl AsgExpression for Expression {
     fn get_type(&self) -> Option<Type> {
         use Expression::*;
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 73da696..b881cee 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -56,12 +56,26 @@ impl Context {
     }
 
     fn encode_container_calculated(&mut self, container: &ContainerType) {
-        for (name, field) in container.flatten_view() {
+        let mut pending: Vec<(String, Arc<Field>)> = container
+            .flatten_view()
+            .filter(|(_, field)| {
+                matches!(&*field.calculated.borrow(), Some(x) if x.blen_calls().is_empty())
+            })
+            .collect();
+        while !pending.is_empty() {
+            // a value comes after those it is calculated from
+            let next = pending
+                .iter()
+                .position(|(_, field)| {
+                    let needed = field.calculated.borrow().as_ref().unwrap().needed_fields();
+                    !pending
+                        .iter()
+                        .any(|(_, other)| needed.iter().any(|x| Arc::ptr_eq(x, other)))
+                })
+                .unwrap_or(0);
+            let (name, field) = pending.remove(next);
             let calculated = field.calculated.borrow();
             if let Some(calculated) = &*calculated {
-                if !calculated.blen_calls().is_empty() {
-                    continue;
-                }
                 let calculated_register = self.alloc_register();
                 self.instructions
                     .push(Instruction::Eval(calculated_register, calculated.clone()));
-- 
2.43.0


From b3a69e79a3e2581802de1540ac6d77d5f55ab89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 49/94] fix: refuse calculated fields which are needed before
 they can be calculated

---
 .../src/semantics/convert/type_/container.rs  | 149 +++++++++++++++++-
 protospec-build/src/semantics/error.rs        |   4 +
 2 files changed, 151 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 8c12bd3..7eefd80 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -138,10 +138,155 @@ impl Scope {
             Scope::convert_ast_field_end(&sub_scope, &ast_field, &out_field)?;
         }
 
-        Ok(Type::Container(Box::new(ContainerType {
+        let container = ContainerType {
             length,
             items,
             is_enum: Cell::new(is_enum),
-        })))
+        };
+        if matches!(purpose, TypePurpose::TypeDefinition(_)) {
+            if is_enum {
+                for field in container.items.values() {
+                    if let Type::Container(variant) = &*field.type_.borrow() {
+                        variant.check_calculated()?;
+                    }
+                }
+            } else {
+                container.check_calculated()?;
+            }
+        }
+        Ok(Type::Container(Box::new(container)))
+    }
+}
+
+impl ContainerType {
+    /// checks that what is calculated can be calculated before it is needed
+    fn check_calculated(&self) -> AsgResult<()> {
+        let (measured, mut pending): (Vec<_>, Vec<_>) = self
+            .flatten_view()
+            .map(|(_, field)| field)
+            .filter(|field| field.calculated.borrow().is_some())
+            .partition(|field| !field.measured_fields().is_empty());
+
+        for field in measured.iter().chain(pending.iter()) {
+            let calculated = field.calculated.borrow();
+            field.check_needed(calculated.as_ref().unwrap(), &measured)?;
+        }
+        while !pending.is_empty() {
+            let next = pending.iter().position(|field| {
+                let calculated = field.calculated.borrow();
+                let needed = calculated.as_ref().unwrap().needed_fields();
+                !pending
+                    .iter()
+                    .any(|other| needed.iter().any(|x| Arc::ptr_eq(x, other)))
+            });
+            match next {
+                Some(next) => {
+                    pending.remove(next);
+                }
+                None => {
+                    return Err(AsgError::RecursiveCalculation(
+                        pending[0].name.clone(),
+                        pending[0].span,
+                    ))
+                }
+            }
+        }
+
+        self.check_measured(&mut vec![])
+    }
+
+    /// checks that nothing which comes before a measured field needs its length
+    fn check_measured(&self, unmeasured: &mut Vec<Arc<Field>>) -> AsgResult<()> {
+        for (i, field) in self.items.values().enumerate() {
+            for needed in &*field.arguments.borrow() {
+                if let Some(default) = &needed.default_value {
+                    field.check_needed(default, unmeasured)?;
+                }
+            }
+            if let Some(condition) = &*field.condition.borrow() {
+                field.check_needed(condition, unmeasured)?;
+            }
+            for transform in &*field.transforms.borrow() {
+                for needed in transform.condition.iter().chain(&transform.arguments) {
+                    field.check_needed(needed, unmeasured)?;
+                }
+            }
+            field.check_type(&field.type_.borrow(), unmeasured)?;
+            if !field.measured_fields().is_empty() {
+                unmeasured.push(field.clone());
+            }
+            unmeasured.retain(|calculated| {
+                let measured = calculated.measured_fields();
+                match self
+                    .items
+                    .values()
+                    .rposition(|x| measured.iter().any(|y| Arc::ptr_eq(x, y)))
+                {
+                    Some(last) => last > i,
+                    None => true,
+                }
+            });
+        }
+        Ok(())
+    }
+}
+
+impl Field {
+    /// the fields whose encoded lengths the field is calculated from
+    fn measured_fields(&self) -> Vec<Arc<Field>> {
+        let mut out = vec![];
+        if let Some(calculated) = &*self.calculated.borrow() {
+            calculated.visit(&mut |e| match e {
+                Expression::Call(e) if e.function.name == "blen" => match e.arguments.first() {
+                    Some(Expression::FieldRef(field)) => out.push(field.clone()),
+                    _ => (),
+                },
+                _ => (),
+            });
+        }
+        out
+    }
+
+    fn check_needed(&self, needed: &Expression, unmeasured: &[Arc<Field>]) -> AsgResult<()> {
+        match needed
+            .needed_fields()
+            .iter()
+            .find(|x| unmeasured.iter().any(|y| Arc::ptr_eq(x, y)))
+        {
+            Some(field) => Err(AsgError::NeededBeforeMeasured(
+                field.name.clone(),
+                self.name.clone(),
+                self.span,
+            )),
+            None => Ok(()),
+        }
+    }
+
+    fn check_type(&self, type_: &Type, unmeasured: &mut Vec<Arc<Field>>) -> AsgResult<()> {
+        match type_ {
+            Type::Container(container) => {
+                if let Some(length) = &container.length {
+                    // the length of a measured container is not checked
+                    let unmeasured = unmeasured
+                        .iter()
+                        .filter(|x| !x.measured_fields().iter().any(|y| y.name == self.name))
+                        .cloned()
+                        .collect::<Vec<_>>();
+                    self.check_needed(length, &unmeasured)?;
+                }
+                container.check_measured(unmeasured)
+            }
+            Type::Array(array) => {
+                if let Some(length) = &array.length.value {
+                    self.check_needed(length, unmeasured)?;
+                }
+                self.check_type(&array.element, unmeasured)
+            }
+            Type::Ref(target) => target
+                .arguments
+                .iter()
+                .try_for_each(|x| self.check_needed(x, unmeasured)),
+            _ => Ok(()),
+        }
     }
 }
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 2301bad..da67159 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -87,6 +87,10 @@ pub enum AsgError {
     EnumContainerPad(Span),
     #[error("container enum has no variants @ {0}")]
     EmptyEnumContainer(Span),
+    #[error("calculated field '{0}' is needed to encode itself @ {1}")]
+    RecursiveCalculation(String, Span),
+    #[error("calculated field '{0}' is needed before it can be measured by '{1}' @ {2}")]
+    NeededBeforeMeasured(String, String, Span),
     #[error("function '{0}' does not take arguments of type {1} @ {2}")]
     InvalidFunctionInput(String, String, Span),
     #[error("blen only gives the length of a later container with a declared length to a calculated field next to it @ {0}")]
-- 
2.43.0


From 05506facb7ad65bb31352f7e4a09829f528ffdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 50/94] fix: refuse arrays of nothing but themselves

---
 protospec-build/src/asg/types/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 60ae5d9..baac65e 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -86,16 +86,32 @@ impl Type {
         }
     }
 
-    /// whether the type is a chain of references which reaches the field
+    /// whether the type is nothing but the field, or arrays of it
     pub(crate) fn refers_to(&self, field: &Arc<Field>) -> bool {
         match self {
             Type::Ref(x) => {
                 Arc::ptr_eq(&x.target, field) || x.target.type_.borrow().refers_to(field)
             }
+            // arguments can end the recursion
+            Type::Array(x) if field.arguments.borrow().is_empty() => x.element.refers_to(field),
             _ => false,
         }
     }
 
+    /// the declaration at the end of a chain of references
+    fn declaration(&self) -> Option<Arc<Field>> {
+        match self {
+            Type::Ref(x) => Some(
+                x.target
+                    .type_
+                    .borrow()
+                    .declaration()
+                    .unwrap_or_else(|| x.target.clone()),
+            ),
+            _ => None,
+        }
+    }
+
     /// looks through a reference only if its target is encoded exactly like its type
     pub fn inlined(&self) -> Cow<'_, Type> {
         match self {
@@ -113,6 +129,11 @@ impl Type {
     }
 
     pub fn assignable_from(&self, other: &Type) -> bool {
+        if let (Some(t1), Some(t2)) = (self.declaration(), other.declaration()) {
+            if Arc::ptr_eq(&t1, &t2) {
+                return true;
+            }
+        }
         match (self.resolved().as_ref(), other.resolved().as_ref()) {
             (Type::Ref(field1), Type::Ref(field2)) => field1
                 .target
-- 
2.43.0


From 91366a7cf9c125cea1b8d12f88e8fb66d4144c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 51/94] fix: compare recursive types by name

---
 protospec-build/src/asg/types/mod.rs          | 27 +++++++++++++++++--
 protospec-build/src/semantics/partial_type.rs |  8 +++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index baac65e..487535c 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -92,8 +92,19 @@ impl Type {
             Type::Ref(x) => {
                 Arc::ptr_eq(&x.target, field) || x.target.type_.borrow().refers_to(field)
             }
+            Type::Array(x) => x.element.repeats(field),
+            _ => false,
+        }
+    }
+
+    fn repeats(&self, field: &Arc<Field>) -> bool {
+        match self {
             // arguments can end the recursion
-            Type::Array(x) if field.arguments.borrow().is_empty() => x.element.refers_to(field),
+            Type::Ref(x) => {
+                x.target.arguments.borrow().is_empty()
+                    && (Arc::ptr_eq(&x.target, field) || x.target.type_.borrow().repeats(field))
+            }
+            Type::Array(x) => x.element.repeats(field),
             _ => false,
         }
     }
@@ -133,6 +144,10 @@ impl Type {
             if Arc::ptr_eq(&t1, &t2) {
                 return true;
             }
+            // each container is a type of its own
+            if matches!(&*t1.type_.borrow(), Type::Container(_)) {
+                return false;
+            }
         }
         match (self.resolved().as_ref(), other.resolved().as_ref()) {
             (Type::Ref(field1), Type::Ref(field2)) => field1
@@ -148,7 +163,15 @@ impl Type {
             (Type::Enum(e1), Type::Enum(e2)) => e1 == e2,
             (Type::Bitfield(e1), Type::Bitfield(e2)) => e1 == e2,
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
-            (Type::Array(a1), Type::Array(a2)) => a1 == a2,
+            (Type::Array(a1), Type::Array(a2)) => {
+                match (a1.element.declaration(), a2.element.declaration()) {
+                    // and so is each array which is repeated
+                    (Some(t1), Some(t2)) if matches!(&*t1.type_.borrow(), Type::Array(_)) => {
+                        Arc::ptr_eq(&t1, &t2)
+                    }
+                    _ => a1 == a2,
+                }
+            }
             (Type::F32, Type::F32) => true,
             (Type::F64, Type::F32) => true,
             (Type::Bool, Type::Bool) => true,
diff --git a/protospec-build/src/semantics/partial_type.rs b/protospec-build/src/semantics/partial_type.rs
index b9261ae..3370168 100644
--- a/protospec-build/src/semantics/partial_type.rs
+++ b/protospec-build/src/semantics/partial_type.rs
@@ -88,7 +88,13 @@ impl Into<PartialType> for Type {
         match self {
             Type::Ref(x) => x.target.type_.borrow().clone().into(),
             Type::Scalar(x) => PartialType::Scalar(PartialScalarType::Some(x.scalar)),
-            Type::Array(x) => PartialType::Array(Some(Box::new(x.element.as_ref().clone().into()))),
+            Type::Array(x) => PartialType::Array(Some(Box::new(match x.element.as_ref() {
+                // which can be an array of the same type again
+                type_ @ Type::Ref(_) if matches!(type_.resolved().as_ref(), Type::Array(_)) => {
+                    PartialType::Type(type_.clone())
+                }
+                type_ => type_.clone().into(),
+            }))),
             x => PartialType::Type(x),
         }
     }
-- 
2.43.0


From 2056ff5107904f02e7150da23a44d2287a132786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 52/94] fix: count columns of the first line from its start

---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index d958339..2691b46 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -540,7 +540,7 @@ impl fmt::Debug for SpannedToken {
 pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>> {
     let mut input = input.as_bytes();
     let mut tokens = vec![];
-    let mut index = 064;
+    let mut index = 0u64;
     let mut line_no = 1u64;
     let mut line_start = 0u64;
     while input.len() > 0 {
-- 
2.43.0


From 5f20f0d491343b32c0309b76c0cf6386fcae241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 53/94] fix: count the lines of strings and comments

---
 protospec-build/src/tokenizer.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 2691b46..029abca 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -546,26 +546,23 @@ pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>>
     while input.len() > 0 {
         match Token::gobble(input) {
             (output, Some(token)) => {
+                let consumed = &input[..input.len() - output.len()];
                 let start_line = line_no;
-                match &token {
-                    Token::CommentLine(_) => {
-                        line_no += 1;
-                    }
-                    Token::CommentBlock(s) => {
-                        line_no += s.chars().filter(|x| *x == '\n').count() as u64;
-                    }
-                    _ => (),
+                let col_start = index - line_start + 1;
+                for (i, _) in consumed.iter().enumerate().filter(|(_, x)| **x == b'\n') {
+                    line_no += 1;
+                    line_start = index + i as u64 + 1;
                 }
+                index += consumed.len() as u64;
                 tokens.push(SpannedToken {
                     token,
                     span: Span {
                         line_start: start_line,
                         line_stop: line_no,
-                        col_start: index - line_start + 1,
-                        col_stop: index - line_start + (input.len() - output.len()) as u64 + 1,
+                        col_start,
+                        col_stop: index - line_start + 1,
                     },
                 });
-                index += (input.len() - output.len()) as u64;
                 input = output;
             }
             (output, None) => {
-- 
2.43.0


From 7d901b34bdc5af75fe4fe198bc8764fa1e908301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 54/94] fix: refuse comments that are not closed

---
 protospec-build/src/tokenizer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 029abca..a8440ef 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -200,6 +200,7 @@ fn eat_identifier(input: &[u8]) -> Option<(&[u8], &[u8])> {
 
 impl Token {
     fn gobble(input: &[u8]) -> (&[u8], Option<Token>) {
+        let start = input;
         if input.len() == 0 {
             return (input, None);
         }
@@ -326,14 +327,11 @@ impl Token {
                         )),
                     );
                 } else if let Some(input) = eat(input, "/*") {
-                    if input.len() == 0 {
-                        return (input, None);
-                    }
                     let eol = input.windows(2).position(|x| x[0] == b'*' && x[1] == b'/');
                     let (input, comment) = if let Some(eol) = eol {
                         (&input[(eol + 2)..], &input[..eol])
                     } else {
-                        (&input[input.len()..input.len()], &input[..])
+                        return (start, None);
                     };
                     return (
                         input,
-- 
2.43.0


From f4b1864cdcdb62503723d6f78239a7a252d136a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 55/94] fix: report where a malformed token is

---
 protospec-build/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/parser/mod.rs b/protospec-build/src/parser/mod.rs
index 0c00d9c..746e30a 100644
--- a/protospec-build/src/parser/mod.rs
+++ b/protospec-build/src/parser/mod.rs
@@ -23,7 +23,9 @@ mod program;
 use program::*;
 
 pub fn parse(script: &str) -> ParseResult<Program> {
-    let mut tokens = TokenIter::new(crate::tokenize(script, true)?);
+    let tokens =
+        crate::tokenize(script, true).map_err(|e| ParseError::TokenError(e.to_string()))?;
+    let mut tokens = TokenIter::new(tokens);
 
     parse_program(&mut tokens)
 }
-- 
2.43.0


From 8022e272728eaa0a46501743c5127c6a8b9495b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 56/94] fix: the span of an enum access covers the variant

---
 protospec-build/src/parser/expression/primary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/parser/expression/primary.rs b/protospec-build/src/parser/expression/primary.rs
index f7dde4c..3a22bdd 100644
--- a/protospec-build/src/parser/expression/primary.rs
+++ b/protospec-build/src/parser/expression/primary.rs
@@ -18,7 +18,7 @@ pub fn parse_primary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
             if t.eat(Token::DoubleColon).is_some() {
                 let variant = t.expect_ident()?;
                 Expression::EnumAccess(EnumAccessExpression {
-                    span: ident.span + ident.span,
+                    span: ident.span + variant.span,
                     name: ident,
                     variant,
                 })
-- 
2.43.0


From c2f1e980a6e0ccd456106e29157aa5510cf9421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 57/94] fix: the span of a type covers its text

---
 protospec-build/src/parser/types/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/parser/types/mod.rs b/protospec-build/src/parser/types/mod.rs
index eae5dd6..322aec0 100644
--- a/protospec-build/src/parser/types/mod.rs
+++ b/protospec-build/src/parser/types/mod.rs
@@ -53,10 +53,14 @@ pub fn parse_type(t: &mut TokenIter) -> ParseResult<Type> {
         }
     };
 
-    let mut out = Type {
-        span: start,
-        raw_type,
+    let span = match &raw_type {
+        RawType::Container(x) => x.span,
+        RawType::Enum(x) => x.span,
+        RawType::Bitfield(x) => x.span,
+        RawType::Ref(x) => x.span,
+        _ => start,
     };
+    let mut out = Type { span, raw_type };
 
     while t.eat(Token::LeftSquare).is_some() {
         let length = parse_length_constraint(t)?;
-- 
2.43.0


From 2ee31fbd48c8c1744c32594d333b980129d58fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 58/94] fix: joined spans cover both

---
 protospec-build/src/tokenizer.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index a8440ef..ce613e6 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -491,27 +491,15 @@ impl std::ops::Add for Span {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        if self.line_start == other.line_stop {
-            Span {
-                line_start: self.line_start,
-                line_stop: self.line_stop,
-                col_start: self.col_start.min(other.col_start),
-                col_stop: self.col_stop.max(other.col_stop),
-            }
-        } else if self.line_start < other.line_start {
-            Span {
-                line_start: self.line_start,
-                line_stop: other.line_stop,
-                col_start: self.col_start,
-                col_stop: other.col_stop,
-            }
-        } else {
-            Span {
-                line_start: other.line_start,
-                line_stop: self.line_stop,
-                col_start: other.col_start,
-                col_stop: self.col_stop,
-            }
+        let (line_start, col_start) =
+            (self.line_start, self.col_start).min((other.line_start, other.col_start));
+        let (line_stop, col_stop) =
+            (self.line_stop, self.col_stop).max((other.line_stop, other.col_stop));
+        Span {
+            line_start,
+            line_stop,
+            col_start,
+            col_stop,
         }
     }
 }
-- 
2.43.0


From 0d355718d0ebe3f7bf38f30248e8a57be2a69c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 59/94] fix: report the error of the left side of an operator
 when the right side only lacks a type

---
 .../src/semantics/convert/expression/binary.rs        | 11 ++++++++++-
 .../src/semantics/convert/expression/int.rs           |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 5dc7f09..10af240 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -68,7 +68,16 @@ impl Scope {
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
             Scope::convert_expr(self_, &expr.right, left_type.into())?
         } else {
-            let right = Scope::convert_expr(self_, &expr.right, init_expected_type)?;
+            let right = match Scope::convert_expr(self_, &expr.right, init_expected_type) {
+                Ok(right) => right,
+                Err(e) => {
+                    // the right side can lack nothing but the type of a bad left side
+                    return Err(match left {
+                        Err(left) if !matches!(left, AsgError::UninferredType(_)) => left,
+                        _ => e,
+                    });
+                }
+            };
             if let Some(right_type) = right.get_type() {
                 left = Ok(Scope::convert_expr(self_, &expr.left, right_type.into())?);
                 if left.as_ref().unwrap().get_type().is_none() {
diff --git a/protospec-build/src/semantics/convert/expression/int.rs b/protospec-build/src/semantics/convert/expression/int.rs
index 6340635..4f1f95b 100644
--- a/protospec-build/src/semantics/convert/expression/int.rs
+++ b/protospec-build/src/semantics/convert/expression/int.rs
@@ -10,6 +10,9 @@ impl Scope {
             (_, Some(s)) => *s,
             (PartialType::Scalar(PartialScalarType::Some(s)), _) => *s,
             (PartialType::Scalar(PartialScalarType::Defaults(s)), _) => *s,
+            (PartialType::Scalar(PartialScalarType::None), _) | (PartialType::Any, _) => {
+                return Err(AsgError::UninferredType(expr.span))
+            }
             (x, _) => {
                 return Err(AsgError::UnexpectedType(
                     "integer".to_string(),
-- 
2.43.0


From a5805a71d5ec732c31dcb57be0aac763d7ba55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 60/94] fix: refuse operators on values they are not defined
 for

---
 .../semantics/convert/expression/binary.rs    | 32 ++++++++++++++++++-
 .../src/semantics/convert/expression/unary.rs | 10 ++++++
 protospec-build/src/semantics/partial_type.rs |  4 ++-
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 10af240..8fc9de7 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -32,6 +32,16 @@ impl Scope {
         }
     }
 
+    /// what both sides have to be, other than of the same type
+    fn operand_type(op: &ast::BinaryOp) -> Option<PartialType> {
+        use ast::BinaryOp::*;
+        match op {
+            Eq | Ne | Elvis => None,
+            Or | And => Some(PartialType::Type(Type::Bool)),
+            _ => Some(PartialType::Scalar(PartialScalarType::None)),
+        }
+    }
+
     pub(super) fn convert_binary_expression(
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::BinaryExpression,
@@ -62,7 +72,10 @@ impl Scope {
         let inferrable =
             init_expected_type.into_type().is_none() && Scope::is_untyped_expression(&expr.left);
         let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
-        if !inferrable {
+        if !matches!(
+            left,
+            Err(AsgError::UninferredType(_) | AsgError::UnexpectedType(..)) if inferrable
+        ) {
             left = Ok(left?);
         }
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
@@ -89,6 +102,23 @@ impl Scope {
             right
         };
         let left = left?;
+        if let (Some(left_type), Some(right_type), Some(expected)) = (
+            left.get_type(),
+            right.get_type(),
+            Self::operand_type(&expr.op),
+        ) {
+            // a foreign type can stand for the type of the other side
+            if !expected.assignable_from(&left_type)
+                && !expected.assignable_from(&right_type)
+                && !(left_type == Type::Bool && matches!(expr.op, BitAnd | BitOr | BitXor))
+            {
+                return Err(AsgError::UnexpectedType(
+                    left_type.to_string(),
+                    expected.to_string(),
+                    *expr.left.span(),
+                ));
+            }
+        }
         let constant =
             eval_const_expression(&left).is_some() && eval_const_expression(&right).is_some();
         let binary = Expression::Binary(BinaryExpression {
diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index cf2d06a..722b755 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -13,6 +13,16 @@ impl Scope {
         )?);
         match expr.op {
             ast::UnaryOp::Not => {
+                match inner.get_type() {
+                    Some(inner_type) if !Type::Bool.assignable_from(&inner_type) => {
+                        return Err(AsgError::UnexpectedType(
+                            inner_type.to_string(),
+                            "bool".to_string(),
+                            expr.span,
+                        ));
+                    }
+                    _ => (),
+                }
                 if !expected_type.assignable_from(&Type::Bool) {
                     return Err(AsgError::UnexpectedType(
                         "bool".to_string(),
diff --git a/protospec-build/src/semantics/partial_type.rs b/protospec-build/src/semantics/partial_type.rs
index 3370168..2f7fae3 100644
--- a/protospec-build/src/semantics/partial_type.rs
+++ b/protospec-build/src/semantics/partial_type.rs
@@ -26,7 +26,9 @@ impl PartialType {
             (PartialType::Scalar(PartialScalarType::Defaults(x)), other) => {
                 Type::Scalar((*x).into()).assignable_from(other)
             }
-            (PartialType::Scalar(PartialScalarType::None), _) => true,
+            (PartialType::Scalar(PartialScalarType::None), other) => {
+                matches!(other, Type::Scalar(_) | Type::F32 | Type::F64)
+            }
             (PartialType::Array(None), Type::Array(_)) => true,
             (PartialType::Array(Some(element)), Type::Array(array_type)) => {
                 element.assignable_from(array_type.element.as_ref())
-- 
2.43.0


From 723caa5449f0176768b646d6677aae8757631c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 61/94] fix: refuse type arguments of one name, and required
 ones after optional ones

---
 protospec-build/src/semantics/convert/field.rs | 15 ++++++++++++++-
 protospec-build/src/semantics/error.rs         |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 83a3ca8..dedde8e 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -16,7 +16,20 @@ impl Scope {
 
         let mut arguments = vec![];
         if let Some(ast_arguments) = ast_arguments {
-            for argument in ast_arguments {
+            for (i, argument) in ast_arguments.iter().enumerate() {
+                let earlier = &ast_arguments[..i];
+                if let Some(defined) = earlier.iter().find(|x| x.name.name == argument.name.name) {
+                    return Err(AsgError::TypeArgumentRedefinition(
+                        argument.name.name.clone(),
+                        argument.name.span,
+                        defined.name.span,
+                    ));
+                }
+                if argument.default_value.is_none()
+                    && earlier.iter().any(|x| x.default_value.is_some())
+                {
+                    return Err(AsgError::InvalidTypeArgumentOrder(argument.span));
+                }
                 let target_type = Scope::convert_ast_type(
                     &sub_scope,
                     &argument.type_.raw_type,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index da67159..0081d02 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -35,6 +35,8 @@ pub enum AsgError {
     EnumVariantRedefinition(String, Span),
     #[error("bitfield flag name already in use: '{0}' @ {1}, originally declared at {2}")]
     BitfieldFlagRedefinition(String, Span, Span),
+    #[error("type argument name already in use: '{0}' @ {1}, originally declared at {2}")]
+    TypeArgumentRedefinition(String, Span, Span),
     #[error("container field name already in use: '{0}' @ {1}, originally declared at {2}")]
     ContainerFieldRedefinition(String, Span, Span),
     #[error("type '{0}' @ {1} refers to nothing but itself")]
-- 
2.43.0


From 54617909cf6efd3ffa0b29607771e15ca3f76fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 62/94] fix: say where a bitfield has no representation

---
 protospec-build/src/parser/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/parser/error.rs b/protospec-build/src/parser/error.rs
index 8655269..2c2908c 100644
--- a/protospec-build/src/parser/error.rs
+++ b/protospec-build/src/parser/error.rs
@@ -15,7 +15,7 @@ pub enum ParseError {
     EmptyLengthConstraint(Span),
     #[error("enum is missing representation scalar @ '{0}'")]
     EnumMissingRep(Span),
-    #[error("bitfield is missing representation scalar")]
+    #[error("bitfield is missing representation scalar @ '{0}'")]
     BitfieldMissingRep(Span),
     #[error("unknown container directive '{0}' @ {1}'")]
     UnknownContainerDirective(String, Span),
-- 
2.43.0


From 4c5f683562951009ba198d5a34e0fe1343320477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 63/94] fix: refuse files which import themselves

---
 protospec-build/src/semantics/convert/program/mod.rs     | 2 +-
 protospec-build/src/semantics/convert/program/resolve.rs | 8 +++++++-
 protospec-build/src/semantics/error.rs                   | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 54c1256..d43fc39 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -17,7 +17,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![])?;
         Program::from_ast_imported(ast, resolver, &cached_imports)
     }
 
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..f7550d8 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -5,12 +5,16 @@ impl Program {
         ast: &ast::Program,
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
+        importing: &mut Vec<String>,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
                 ast::Declaration::Import(import) => {
                     let content = String::from_utf8_lossy(&import.from.content[..]).into_owned();
                     let normalized = resolver.normalize_import(&content[..])?;
+                    if importing.contains(&normalized) {
+                        return Err(AsgError::ImportCycle(content, import.from.span));
+                    }
                     if let Some(_cached) = cache.get(&normalized) {
                     } else {
                         let loaded = resolver.resolve_import(&normalized)?;
@@ -21,7 +25,9 @@ impl Program {
                                     return Err(AsgError::ImportParse(content, import.from.span, e))
                                 }
                             };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
+                            importing.push(normalized.clone());
+                            Program::from_ast_imports(&parsed, resolver, cache, importing)?;
+                            importing.pop();
                             let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
                             cache.insert(normalized, asg);
                         } else {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 0081d02..cc646fc 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -11,6 +11,8 @@ pub enum AsgError {
     FfiMissing(String, Span),
     #[error("unresolved import '{0}' @ {1}")]
     ImportMissing(String, Span),
+    #[error("import of '{0}' @ {1} imports itself")]
+    ImportCycle(String, Span),
     #[error("unresolved import item '{0}' does not exist in module {1} @ {2}")]
     ImportUnresolved(String, String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
-- 
2.43.0


From a9cc93bfd03d5596592edea511a1aa4e837997bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:28 +0000
Subject: [PATCH 64/94] fix: generate code for all of an imported file, and
 refuse imports of names in use

---
 protospec-build/src/asg/program.rs            |  15 +++
 protospec-build/src/compiler/mod.rs           |  11 +-
 .../src/semantics/convert/program/field.rs    |   8 +-
 .../src/semantics/convert/program/import.rs   | 127 ++++++++++++++++--
 .../src/semantics/convert/program/mod.rs      |  14 +-
 .../src/semantics/convert/program/resolve.rs  |   7 +-
 6 files changed, 163 insertions(+), 19 deletions(-)

diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..c9d16a0 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -6,9 +6,24 @@ pub struct Program {
     pub consts: IndexMap<String, Arc<Const>>,
     pub transforms: IndexMap<String, Arc<Transform>>,
     pub functions: IndexMap<String, Arc<Function>>,
+    /// the types of imported files, in scope or not
+    pub imported: Vec<Arc<Field>>,
 }
 
 impl Program {
+    /// the types to generate code for
+    pub(crate) fn generated(&self) -> Vec<Arc<Field>> {
+        let mut out: Vec<Arc<Field>> = vec![];
+        for field in self.types.values().chain(&self.imported) {
+            if !matches!(&*field.type_.borrow(), Type::Foreign(_))
+                && !out.iter().any(|x| Arc::ptr_eq(x, field))
+            {
+                out.push(field.clone());
+            }
+        }
+        out
+    }
+
     pub fn scan_cycles(&self) {
         for (_, field) in &self.types {
             let mut interior_fields = IndexSet::new();
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 376194f..a5f5ff8 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -143,8 +143,17 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
         #errors
     });
     for (name, field) in program.types.iter() {
+        if *name != field.name && !matches!(&*field.type_.borrow(), Type::Foreign(_)) {
+            let alias = format_ident!("{}", global_name(name));
+            let ident = format_ident!("{}", global_name(&field.name));
+            components.push(quote! {
+                pub use self::#ident as #alias;
+            });
+        }
+    }
+    for field in program.generated() {
+        let name = &field.name;
         match &*field.type_.borrow() {
-            Type::Foreign(_) => continue,
             Type::Container(item) => {
                 components.push(generate_container(&name, &**item, options));
             }
diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index 1e59b45..e7e34db 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use crate::TypeDeclaration;
 
 use super::*;
@@ -6,6 +8,7 @@ impl Scope {
     pub(super) fn convert_type_declaration(
         type_: &TypeDeclaration,
         program: &RefCell<Program>,
+        names: &HashMap<String, String>,
     ) -> AsgResult<Arc<Field>> {
         if let Some(defined) = program.borrow().types.get(&type_.name.name) {
             return Err(AsgError::TypeRedefinition(
@@ -16,7 +19,10 @@ impl Scope {
         }
 
         let field = Arc::new(Field {
-            name: type_.name.name.clone(),
+            name: names
+                .get(&type_.name.name)
+                .unwrap_or(&type_.name.name)
+                .clone(),
             arguments: RefCell::new(vec![]),
             span: type_.value.span,
             type_: RefCell::new(Type::Bool), // placeholder
diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..0cec8a3 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -1,7 +1,66 @@
+use std::collections::{HashMap, HashSet};
+
 use crate::ImportDeclaration;
 
 use super::*;
 
+/// the names in the generated code of the types of imported files
+pub(super) struct ImportNames {
+    /// by file and name, the name the type is imported by
+    imported: HashMap<(String, String), String>,
+    taken: HashSet<String>,
+}
+
+impl ImportNames {
+    pub(super) fn new<T: ImportResolver + 'static>(
+        ast: &ast::Program,
+        resolver: &T,
+    ) -> AsgResult<Self> {
+        let mut imported = HashMap::new();
+        let mut taken = HashSet::new();
+        for declaration in ast.declarations.iter() {
+            match declaration {
+                ast::Declaration::Type(type_) => {
+                    taken.insert(type_.name.name.clone());
+                }
+                ast::Declaration::Import(import) => {
+                    let content = String::from_utf8_lossy(&import.from.content[..]);
+                    let normalized = resolver.normalize_import(content.as_ref())?;
+                    for item in &import.items {
+                        let alias = &item.alias.as_ref().unwrap_or(&item.name).name;
+                        taken.insert(alias.clone());
+                        imported
+                            .entry((normalized.clone(), item.name.name.clone()))
+                            .or_insert_with(|| alias.clone());
+                    }
+                }
+                _ => (),
+            }
+        }
+        Ok(ImportNames { imported, taken })
+    }
+
+    /// names for the types of a file, which are different from all others
+    pub(super) fn of(&mut self, file: &str, ast: &ast::Program) -> HashMap<String, String> {
+        let mut out = HashMap::new();
+        for declaration in ast.declarations.iter() {
+            if let ast::Declaration::Type(type_) = declaration {
+                let name = &type_.name.name;
+                let imported = self.imported.get(&(file.to_string(), name.clone()));
+                let unique = imported.cloned().unwrap_or_else(|| {
+                    std::iter::once(name.clone())
+                        .chain((1..).map(|i| format!("{}_{}", name, i)))
+                        .find(|x| !self.taken.contains(x))
+                        .unwrap()
+                });
+                self.taken.insert(unique.clone());
+                out.insert(name.clone(), unique);
+            }
+        }
+        out
+    }
+}
+
 impl Scope {
     pub(super) fn convert_import_declaration<T: ImportResolver + 'static>(
         import: &ImportDeclaration,
@@ -12,24 +71,70 @@ impl Scope {
         let content = String::from_utf8_lossy(&import.from.content[..]);
         let normalized = resolver.normalize_import(content.as_ref())?;
         if let Some(cached) = import_cache.get(&normalized) {
+            let mut program = program.borrow_mut();
+            for field in cached.generated() {
+                if !program.imported.iter().any(|x| Arc::ptr_eq(x, &field)) {
+                    program.imported.push(field);
+                }
+            }
             for import_item in import.items.iter() {
+                let name = &import_item.name.name;
                 let imported_name = if let Some(alias) = import_item.alias.as_ref() {
                     alias.name.clone()
                 } else {
-                    import_item.name.name.clone()
+                    name.clone()
                 };
-                if let Some(t) = cached.types.get(&import_item.name.name) {
-                    program.borrow_mut().types.insert(imported_name, t.clone());
-                } else if let Some(t) = cached.consts.get(&import_item.name.name) {
-                    program.borrow_mut().consts.insert(imported_name, t.clone());
-                } else if let Some(t) = cached.transforms.get(&import_item.name.name) {
-                    program
-                        .borrow_mut()
-                        .transforms
-                        .insert(imported_name, t.clone());
+                if let Some(t) = cached.types.get(name) {
+                    match program.types.get(&imported_name) {
+                        Some(defined) if !Arc::ptr_eq(defined, t) => {
+                            return Err(AsgError::TypeRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
+                    program.types.insert(imported_name, t.clone());
+                } else if let Some(t) = cached.consts.get(name) {
+                    match program.consts.get(&imported_name) {
+                        Some(defined) if !Arc::ptr_eq(defined, t) => {
+                            return Err(AsgError::ConstRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
+                    program.consts.insert(imported_name, t.clone());
+                } else if let Some(t) = cached.transforms.get(name) {
+                    match program.transforms.get(&imported_name) {
+                        Some(defined) if !Arc::ptr_eq(defined, t) => {
+                            return Err(AsgError::TransformRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
+                    program.transforms.insert(imported_name, t.clone());
+                } else if let Some(t) = cached.functions.get(name) {
+                    match program.functions.get(&imported_name) {
+                        Some(defined) if !Arc::ptr_eq(defined, t) => {
+                            return Err(AsgError::FunctionRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
+                    program.functions.insert(imported_name, t.clone());
                 } else {
                     return Err(AsgError::ImportUnresolved(
-                        import_item.name.name.clone(),
+                        name.clone(),
                         normalized.clone(),
                         import_item.name.span,
                     ));
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index d43fc39..885664b 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use super::*;
 
 mod resolve;
@@ -5,6 +7,7 @@ mod resolve;
 mod ffi;
 
 mod import;
+use import::ImportNames;
 
 mod field;
 
@@ -17,20 +20,23 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![])?;
-        Program::from_ast_imported(ast, resolver, &cached_imports)
+        let mut names = ImportNames::new(ast, resolver)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![], &mut names)?;
+        Program::from_ast_imported(ast, resolver, &cached_imports, &HashMap::new())
     }
 
     fn from_ast_imported<T: ImportResolver + 'static>(
         ast: &ast::Program,
         resolver: &T,
         import_cache: &IndexMap<String, Program>,
+        names: &HashMap<String, String>,
     ) -> AsgResult<Program> {
         let program = Arc::new(RefCell::new(Program {
             types: IndexMap::new(),
             consts: IndexMap::new(),
             transforms: IndexMap::new(),
             functions: IndexMap::new(),
+            imported: vec![],
         }));
 
         {
@@ -80,7 +86,7 @@ impl Program {
                             ast::RawType::Enum(_) | ast::RawType::Bitfield(_)
                         ) =>
                     {
-                        let field = Scope::convert_type_declaration(type_, &*program)?;
+                        let field = Scope::convert_type_declaration(type_, &*program, names)?;
                         let scope = Scope::convert_ast_field_arguments(
                             &scope,
                             &field,
@@ -105,7 +111,7 @@ impl Program {
                             ast::RawType::Enum(_) | ast::RawType::Bitfield(_)
                         ) =>
                     {
-                        let field = Scope::convert_type_declaration(type_, &*program)?;
+                        let field = Scope::convert_type_declaration(type_, &*program, names)?;
                         return_fields.push((type_, field));
                     }
                     _ => (),
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index f7550d8..078474f 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -6,6 +6,7 @@ impl Program {
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
         importing: &mut Vec<String>,
+        names: &mut ImportNames,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
@@ -26,9 +27,11 @@ impl Program {
                                 }
                             };
                             importing.push(normalized.clone());
-                            Program::from_ast_imports(&parsed, resolver, cache, importing)?;
+                            Program::from_ast_imports(&parsed, resolver, cache, importing, names)?;
                             importing.pop();
-                            let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
+                            let names = names.of(&normalized, &parsed);
+                            let asg =
+                                Program::from_ast_imported(&parsed, resolver, cache, &names)?;
                             cache.insert(normalized, asg);
                         } else {
                             return Err(AsgError::ImportMissing(content, import.from.span));
-- 
2.43.0


From f8377a86995d9a99b6152bc5174c10a856518192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 65/94] fix: generate conditional transforms of asynchronous
 encoders which compile

---
 protospec-build/src/compiler/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 7a90e1e..3eb5bf0 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -358,7 +358,7 @@ impl EncoderContext {
                     let prelude = self.prepare_encode(&prelude[..], false);
 
                     let trait_name = if self.is_async {
-                        quote! { dyn AsyncWrite + Send + Sync + Unpin }
+                        quote! { (dyn AsyncWrite + Send + Sync + Unpin) }
                     } else {
                         quote! { dyn Write }
                     };
-- 
2.43.0


From c8cc7212500264034b3820e40ee7c26d4b0058da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 66/94] fix: read arrays to the end of the stream by
 asynchronous methods in asynchronous decoders

---
 protospec-build/src/compiler/decoder.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 5c14a52..8ce8c68 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -428,6 +428,12 @@ fn prepare_decode(
                 let stop = stop_index.map(emit_register);
                 let terminator = terminator.map(emit_register);
                 let target = emit_target(target);
+                // what reads from memory as well as asynchronously has both kinds of methods
+                let reader_type = if is_async {
+                    quote! { &mut (dyn AsyncBufRead + Unpin + Send + Sync) }
+                } else {
+                    quote! { &mut dyn BufRead }
+                };
                 if let Some(stop) = stop {
                     statements.push(quote! {
                         let mut #output = Vec::new();
@@ -436,13 +442,10 @@ fn prepare_decode(
                         }
                     });
                 } else if let Some(terminator) = terminator {
-                    let (chain, reader_type) = if is_async {
-                        (
-                            quote! { AsyncReadExt::chain },
-                            quote! { &mut (dyn AsyncBufRead + Unpin + Send + Sync) },
-                        )
+                    let chain = if is_async {
+                        quote! { AsyncReadExt::chain }
                     } else {
-                        (quote! { Read::chain }, quote! { &mut dyn BufRead })
+                        quote! { Read::chain }
                     };
                     statements.push(quote! {
                         let mut #output = Vec::new();
@@ -479,9 +482,10 @@ fn prepare_decode(
                             let r_len = r.len() as u64;
 
                             {
-                                let mut #target = Cursor::new(r);
-                                let mut #target = &mut #target;
-                                while #target.position() < r_len {
+                                let mut cursor = Cursor::new(r);
+                                while cursor.position() < r_len {
+                                    let mut #target = &mut cursor as #reader_type;
+                                    let mut #target = &mut #target;
                                     #inner
                                 }
                             }
-- 
2.43.0


From 9d9f015e85b8384fbd8c82f17a88ab3834fc25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:59 +0000
Subject: [PATCH 67/94] fix: encode recursive types through transforms with
 writers of one type

---
 protospec-build/src/compiler/encoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3eb5bf0..ee6d4fa 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -27,6 +27,21 @@ fn emit_target_borrow(target: &Target) -> TokenStream {
     }
 }
 
+/// the target as a writer of a sized type, which does not grow with each recursion
+fn emit_target_writer(target: &Target, is_async: bool) -> TokenStream {
+    match target {
+        Target::Stream(x) => {
+            let stream = emit_register(*x);
+            if is_async {
+                quote! { &mut (&mut #stream as &mut (dyn AsyncWrite + Send + Sync + Unpin)) }
+            } else {
+                quote! { &mut (&mut #stream as &mut dyn Write) }
+            }
+        }
+        _ => emit_target_borrow(target),
+    }
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -217,7 +232,7 @@ impl EncoderContext {
                 }
                 Instruction::EncodeRef(target, source, args) => {
                     let out_arguments = flatten(args.iter().map(emit_ref_argument));
-                    let target = emit_target_borrow(target);
+                    let target = emit_target_writer(target, self.is_async);
                     let source = emit_register(*source);
                     if self.is_async {
                         statements.push(quote! {
-- 
2.43.0


From 03f7c7b917e8b063c2ad2d1129a03d08494cd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 68/94] fix: find recursion of types through fields of any name

---
 protospec-build/src/asg/types/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 487535c..6deb5f8 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -249,9 +249,7 @@ impl Type {
             }
             Type::Container(interior) => {
                 for (_, field) in &interior.items {
-                    if target.insert(field.name.clone()) {
-                        field.get_indirect_contained_fields(target);
-                    }
+                    field.get_indirect_contained_fields(target);
                 }
             }
             Type::Ref(call) => {
-- 
2.43.0


From 7294d2a573540b14915cb171c99aa4c82020fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 69/94] fix: index tuples without a suffix, as macros expect

---
 protospec-build/src/compiler/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index ee6d4fa..f8bee3c 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use super::*;
 use crate::coder::encode::*;
 use crate::{coder::*, map_async, Endian, EndianScalarType, ScalarType};
+use proc_macro2::Literal;
 
 fn emit_target(target: &Target) -> TokenStream {
     match target {
@@ -95,7 +96,8 @@ impl EncoderContext {
                                 quote! { #source[#index as usize] }
                             }
                             FieldRef::TupleAccess(x) => {
-                                quote! { #source.#x }
+                                let index = Literal::usize_unsuffixed(*x);
+                                quote! { #source.#index }
                             }
                         };
                     }
-- 
2.43.0


From d189111ef480efe628c8f9ff7839cc8253a55f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 70/94] fix: print registers in one order in debug code

---
 protospec-build/src/coder/decode/instruction.rs | 2 +-
 protospec-build/src/coder/decode/mod.rs         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 87d1bae..8b387ef 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -25,7 +25,7 @@ pub enum Constructable {
 
 #[derive(Debug)]
 pub enum Instruction {
-    Eval(usize, Expression, HashMap<String, usize>),
+    Eval(usize, Expression, BTreeMap<String, usize>),
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index c086c45..e41bfc8 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,7 +1,7 @@
 use super::*;
 use crate::asg::*;
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashSet},
     sync::Arc,
 };
 
@@ -20,7 +20,7 @@ pub use container::*;
 #[derive(Debug)]
 pub struct Context {
     pub register_count: usize,
-    pub field_register_map: HashMap<String, usize>,
+    pub field_register_map: BTreeMap<String, usize>,
     // registers already holding an option, of fields with a condition
     pub optional_registers: HashSet<usize>,
     pub instructions: Vec<Instruction>,
@@ -40,7 +40,7 @@ impl Context {
         Context {
             name: String::new(),
             instructions: vec![],
-            field_register_map: HashMap::new(),
+            field_register_map: BTreeMap::new(),
             optional_registers: HashSet::new(),
             register_count: 0,
         }
-- 
2.43.0


From 23d45615ff89e3893a426cb9b6636ef03fa52a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:45 +0000
Subject: [PATCH 71/94] fix: refuse variable-length integers which do not fit
 their type

---
 protospec-build/src/prelude/var.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 27f7e9e..32d3244 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -80,12 +80,16 @@ impl ForeignType for VarInt {
                 let mut buf = [0xffu8; 1];
                 let mut output: #inner = 0;
                 while (buf[0] & 128) == 128 {
-                    #source.read_exact(&mut buf[..])#async_?;
-                    output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
-                    i += 1;
                     if i >= #end {
-                        break;
+                        return Err(decode_error("variable-length integer is too long").into());
                     }
+                    #source.read_exact(&mut buf[..])#async_?;
+                    let bits = buf[0] as #inner_unsigned & 127;
+                    if (bits << (i * 7)) >> (i * 7) != bits {
+                        return Err(decode_error("variable-length integer does not fit its type").into());
+                    }
+                    output |= (bits << (i * 7)) as #inner;
+                    i += 1;
                 }
                 output
             };
-- 
2.43.0


From 42d132fe78922cd37a404ed9766c4cb720b744ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 72/94] fix: report expressions without a value as errors
 instead of panicking

---
 protospec-build/src/compiler/expr.rs | 55 +++++++++++++++++++++++++++-
 protospec-build/src/compiler/mod.rs  |  4 ++
 protospec-build/src/prelude/pad.rs   | 10 +++--
 protospec-build/src/prelude/sum.rs   |  6 ++-
 4 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index ac9335c..9268859 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -241,6 +241,20 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     }
 }
 
+/// whether an expression has a value of an integer type of Rust
+fn is_integer(expr: &Expression) -> bool {
+    match expr.get_type().map(|type_| type_.resolved().into_owned()) {
+        Some(Type::Scalar(_)) => true,
+        Some(Type::Foreign(foreign)) => {
+            use crate::ScalarType::*;
+            [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]
+                .iter()
+                .any(|scalar| foreign.obj.assignable_to(&Type::Scalar((*scalar).into())))
+        }
+        _ => false,
+    }
+}
+
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
@@ -250,9 +264,41 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         Binary(c) => {
             let left = emit_expression(&c.left, ref_resolver);
             let right = emit_expression(&c.right, ref_resolver);
+            let checked = match c.op {
+                BinaryOp::Add => Some("checked_add"),
+                BinaryOp::Sub => Some("checked_sub"),
+                BinaryOp::Mul => Some("checked_mul"),
+                BinaryOp::Div => Some("checked_div"),
+                BinaryOp::Mod => Some("checked_rem"),
+                BinaryOp::Shl => Some("checked_shl"),
+                BinaryOp::Shr | BinaryOp::ShrSigned => Some("checked_shr"),
+                _ => None,
+            };
+            match checked {
+                Some(checked) if is_integer(&c.left) => {
+                    let method = format_ident!("{}", checked);
+                    let result = if checked.starts_with("checked_sh") {
+                        quote! {
+                            (match TryInto::<u32>::try_into(#right) {
+                                Ok(bits) => (#left).#method(bits),
+                                Err(_) => None,
+                            })
+                        }
+                    } else {
+                        quote! { (#left).#method(#right) }
+                    };
+                    return quote! {
+                        (#result.ok_or_else(arithmetic_error)?)
+                    };
+                }
+                _ => (),
+            }
             if c.op == BinaryOp::Elvis {
                 quote! {
-                    (#left).unwrap_or(#right)
+                    (match #left {
+                        Some(value) => value,
+                        None => #right,
+                    })
                 }
             } else {
                 let op = match c.op {
@@ -291,6 +337,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Unary(c) => {
             let inner = emit_expression(&c.inner, ref_resolver);
+            if c.op == UnaryOp::Negate && is_integer(&c.inner) {
+                return quote! {
+                    ((#inner).checked_neg().ok_or_else(arithmetic_error)?)
+                };
+            }
             let op = match c.op {
                 UnaryOp::Negate => quote! { - },
                 UnaryOp::Not => quote! { ! },
@@ -326,7 +377,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let index = emit_expression(&c.index, ref_resolver);
 
             quote! {
-                (#array)[(#index) as usize]
+                (*(#array).get((#index) as usize).ok_or_else(arithmetic_error)?)
             }
         }
         EnumAccess(c) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index a5f5ff8..95e83e7 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -141,6 +141,10 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
         use std::convert::TryInto;
 
         #errors
+
+        fn arithmetic_error() -> std::io::Error {
+            std::io::Error::new(std::io::ErrorKind::InvalidData, "expression does not have a value")
+        }
     });
     for (name, field) in program.types.iter() {
         if *name != field.name && !matches!(&*field.type_.borrow(), Type::Foreign(_)) {
diff --git a/protospec-build/src/prelude/pad.rs b/protospec-build/src/prelude/pad.rs
index 1b45ce7..8411faa 100644
--- a/protospec-build/src/prelude/pad.rs
+++ b/protospec-build/src/prelude/pad.rs
@@ -26,10 +26,12 @@ impl ForeignFunction for PadFunction {
         let pad = &arguments[0].value;
         let base = &arguments[1].value;
         return quote! {
-            if #base % #pad == 0 {
-                0
-            } else {
-                (#pad - (#base % #pad))
+            {
+                let (pad, base): (u64, u64) = (#pad, #base);
+                match base.checked_rem(pad).ok_or_else(arithmetic_error)? {
+                    0 => 0u64,
+                    excess => pad - excess,
+                }
             }
         };
     }
diff --git a/protospec-build/src/prelude/sum.rs b/protospec-build/src/prelude/sum.rs
index a9ea36c..8e80152 100644
--- a/protospec-build/src/prelude/sum.rs
+++ b/protospec-build/src/prelude/sum.rs
@@ -30,7 +30,11 @@ impl ForeignFunction for SumFunction {
         }
         let input = &arguments[0].value;
         return quote! {
-            (#input.iter().copied().map(|x| x as u64).sum::<u64>() as u64)
+            #input
+                .iter()
+                .try_fold(0i128, |sum, x| sum.checked_add(TryInto::<i128>::try_into(*x).ok()?))
+                .and_then(|sum| TryInto::<u64>::try_into(sum).ok())
+                .ok_or_else(arithmetic_error)?
         };
     }
 }
-- 
2.43.0


From 4662482bda23cdd88319fc66638cf153e76e41a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 73/94] fix: refuse to encode zero-terminated strings which
 contain a zero

---
 protospec-build/src/prelude/utf8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 393b0fc..a94e85b 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -74,6 +74,9 @@ impl ForeignType for Utf8 {
         } else {
             quote! {
                 {
+                    if #field_ref.as_bytes().contains(&0u8) {
+                        return Err(encode_error("string contains its terminator").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                     #target.write_all(&[0u8])#async_?;
                 }
-- 
2.43.0


From e6daf4dbbd4382059be991b6013c43c77022dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 74/94] fix: refuse to decode array elements which take no
 input up to an end that never comes

---
 protospec-build/src/compiler/decoder.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 8ce8c68..e0fa52f 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -461,6 +461,7 @@ fn prepare_decode(
                                 if lookahead.is_empty() {
                                     Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
                                 }
+                                let offered = lookahead.len();
                                 let mut chained = #chain(Cursor::new(mem::take(&mut lookahead)), &mut *#target);
                                 {
                                     let mut #target = &mut chained as #reader_type;
@@ -469,6 +470,9 @@ fn prepare_decode(
                                 }
                                 let (unread, _) = chained.into_inner();
                                 lookahead = unread.get_ref()[unread.position() as usize..].to_vec();
+                                if lookahead.len() == offered {
+                                    return Err(decode_error("array element takes no input").into());
+                                }
                             }
                         }
                     });
@@ -484,9 +488,15 @@ fn prepare_decode(
                             {
                                 let mut cursor = Cursor::new(r);
                                 while cursor.position() < r_len {
-                                    let mut #target = &mut cursor as #reader_type;
-                                    let mut #target = &mut #target;
-                                    #inner
+                                    let start = cursor.position();
+                                    {
+                                        let mut #target = &mut cursor as #reader_type;
+                                        let mut #target = &mut #target;
+                                        #inner
+                                    }
+                                    if cursor.position() == start {
+                                        return Err(decode_error("array element takes no input").into());
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 505071a7ad2e6059bc36e9e73f9cc22383c04b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 75/94] fix: refuse to encode array elements which decoders
 take for the end of the array

---
 protospec-build/src/coder/encode/array.rs     | 24 +++++++++++++--
 .../src/coder/encode/instruction.rs           | 11 +++++++
 protospec-build/src/compiler/encoder.rs       | 29 +++++++++++++++++++
 3 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 86c3b76..2c7fbf5 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -75,7 +75,22 @@ impl Context {
             }
         }
 
+        // elements of arrays without a declared length, as decoders have to tell them from its end
+        let buffered = if type_.length.expandable {
+            let buf = self.alloc_register();
+            self.instructions.push(Instruction::AllocDynBuf(buf));
+            let starts = self.alloc_register();
+            self.instructions.push(Instruction::AllocStarts(starts));
+            Some((buf, starts))
+        } else {
+            None
+        };
+        let element_target = buffered.map_or(target, |(buf, _)| Target::Buf(buf));
+
         let current_pos = self.instructions.len();
+        if let Some((buf, starts)) = buffered {
+            self.instructions.push(Instruction::MarkStart(starts, buf));
+        }
         let iter_index = self.alloc_register();
         let new_source = self.alloc_register();
 
@@ -86,7 +101,7 @@ impl Context {
         ops.push(FieldRef::ArrayAccess(iter_index));
         self.instructions
             .push(Instruction::GetField(new_source, source, ops));
-        self.encode_type(&type_.element, target, new_source);
+        self.encode_type(&type_.element, element_target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
             self.instructions.push(Instruction::CheckLen(
@@ -105,11 +120,16 @@ impl Context {
             .push(Instruction::Loop(iter_index, len, drained));
         if let Some(terminator) = terminator {
             self.instructions.push(Instruction::EncodePrimitiveArray(
-                target,
+                element_target,
                 terminator,
                 PrimitiveType::Scalar(ScalarType::U8.into()),
                 None,
             ));
         }
+        if let Some((buf, starts)) = buffered {
+            self.instructions
+                .push(Instruction::CheckStarts(starts, buf, terminator));
+            self.instructions.push(Instruction::EmitBuf(target, buf));
+        }
     }
 }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index ef3db80..d5f0355 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -17,6 +17,12 @@ pub enum Instruction {
     SetRef(String, usize),
     /// buf handle
     AllocDynBuf(usize),
+    /// starts of elements
+    AllocStarts(usize),
+    /// starts of elements, buf handle
+    MarkStart(usize, usize),
+    /// starts of elements, buf handle, terminator
+    CheckStarts(usize, usize, Option<usize>),
     /// stream, new stream, transformer, arguments
     WrapStream(Target, usize, Arc<Transform>, Vec<usize>),
     /// condition, prelude, stream, new stream, owned_new_stream, transformer, arguments
@@ -97,6 +103,11 @@ impl fmt::Display for Instruction {
                 write!(f, "SetRef('{}', {})", ref_name, source)
             }
             Instruction::AllocDynBuf(buf) => write!(f, "AllocDynBuf({})", buf),
+            Instruction::AllocStarts(starts) => write!(f, "AllocStarts({})", starts),
+            Instruction::MarkStart(starts, buf) => write!(f, "MarkStart({}, {})", starts, buf),
+            Instruction::CheckStarts(starts, buf, terminator) => {
+                write!(f, "CheckStarts({}, {}, {:?})", starts, buf, terminator)
+            }
             Instruction::WrapStream(stream, new_stream, transform, arguments) => {
                 write!(
                     f,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index f8bee3c..b564f63 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -111,6 +111,35 @@ impl EncoderContext {
                         let mut #buf: Vec<u8> = Vec::new();
                     });
                 }
+                Instruction::AllocStarts(starts) => {
+                    let starts = emit_register(*starts);
+                    statements.push(quote! {
+                        let mut #starts: Vec<usize> = Vec::new();
+                    });
+                }
+                Instruction::MarkStart(starts, buf) => {
+                    let starts = emit_register(*starts);
+                    let buf = emit_register(*buf);
+                    statements.push(quote! {
+                        #starts.push(#buf.len());
+                    });
+                }
+                Instruction::CheckStarts(starts, buf, terminator) => {
+                    let starts = emit_register(*starts);
+                    let buf = emit_register(*buf);
+                    // what a decoder would take for the end of the array
+                    let end = if let Some(terminator) = terminator {
+                        let terminator = emit_register(*terminator);
+                        quote! { #buf[*start..].starts_with(&#terminator[..]) }
+                    } else {
+                        quote! { #buf[*start..].is_empty() }
+                    };
+                    statements.push(quote! {
+                        if #starts.iter().any(|start| #end) {
+                            return Err(encode_error("array element looks like the end of the array").into());
+                        }
+                    });
+                }
                 Instruction::Loop(index, stop_index, inner) => {
                     let index = emit_register(*index);
                     let inner = self.prepare_encode(&inner[..], false);
-- 
2.43.0


From cc539a7d0a8661f1c95288f901c23e1b5b115c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:42 +0000
Subject: [PATCH 76/94] fix: read gzip up to its end and no further

---
 protospec-build/src/coder/decode/container.rs |  1 +
 protospec-build/src/coder/decode/field.rs     | 19 +++++++++++++++++--
 .../src/coder/decode/instruction.rs           |  3 +++
 protospec-build/src/coder/decode/mod.rs       |  3 +++
 protospec-build/src/compiler/decoder.rs       | 14 ++++++++++++++
 protospec-build/src/ffi/transform.rs          |  6 ++++++
 protospec-build/src/prelude/gzip.rs           | 15 ++++++++++++++-
 7 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/coder/decode/container.rs b/protospec-build/src/coder/decode/container.rs
index 00232e4..83d3210 100644
--- a/protospec-build/src/coder/decode/container.rs
+++ b/protospec-build/src/coder/decode/container.rs
@@ -139,6 +139,7 @@ impl Context {
             }
 
             if let Some(condition) = condition {
+                self.decode_stream_ends(0);
                 self.instructions.push(Instruction::Return(target));
                 let drained = self.instructions.drain(start..).collect();
                 self.instructions
diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 79deacd..580d630 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -77,12 +77,23 @@ impl Context {
         emitted
     }
 
+    /// ends the streams opened after the first ones, innermost first
+    pub fn decode_stream_ends(&mut self, first: usize) {
+        for (stream, condition, transform) in self.open_streams[first..].iter().rev() {
+            self.instructions.push(Instruction::EndStream(
+                *stream,
+                *condition,
+                transform.clone(),
+            ));
+        }
+    }
+
     pub fn decode_field_unconditional(
         &mut self,
         mut source: Target,
         field: &Arc<Field>,
     ) -> Vec<usize> {
-        let mut new_streams = vec![];
+        let open_streams = self.open_streams.len();
 
         for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
@@ -109,7 +120,8 @@ impl Context {
                 args.push(r);
             }
             let new_stream = self.alloc_register();
-            new_streams.push(new_stream);
+            self.open_streams
+                .push((new_stream, condition, transform.transform.clone()));
 
             if let Some(condition) = condition {
                 let drained = self.instructions.drain(argument_start..).collect();
@@ -135,6 +147,9 @@ impl Context {
         //todo: assert condition matching actual presence
         let emitted = self.decode_complex_type(source, field);
 
+        self.decode_stream_ends(open_streams);
+        self.open_streams.truncate(open_streams);
+
         emitted
     }
 }
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 8b387ef..0ca4432 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -41,6 +41,9 @@ pub enum Instruction {
         Vec<usize>,
     ), // condition, prelude, stream, new stream, transformer, arguments
 
+    // stream, condition, transformer
+    EndStream(usize, Option<usize>, Arc<Transform>),
+
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     DecodeRef(Target, usize, String, Vec<RefArgument>),
     DecodeRepr(String, PrimitiveType, usize, Target),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index e41bfc8..8dc2d7d 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -24,6 +24,8 @@ pub struct Context {
     // registers already holding an option, of fields with a condition
     pub optional_registers: HashSet<usize>,
     pub instructions: Vec<Instruction>,
+    /// streams of transforms being decoded, with their conditions
+    pub open_streams: Vec<(usize, Option<usize>, Arc<Transform>)>,
     pub name: String,
 }
 
@@ -42,6 +44,7 @@ impl Context {
             instructions: vec![],
             field_register_map: BTreeMap::new(),
             optional_registers: HashSet::new(),
+            open_streams: vec![],
             register_count: 0,
         }
     }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index e0fa52f..aa1edf3 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -254,6 +254,20 @@ fn prepare_decode(
                     })
                 }
             }
+            Instruction::EndStream(stream, condition, transformer) => {
+                let stream = emit_register(*stream);
+                let finish = transformer.inner.decoding_finish_gen(stream, is_async);
+                if let Some(condition) = condition {
+                    let condition = emit_register(*condition);
+                    statements.push(quote! {
+                        if #condition {
+                            #finish
+                        }
+                    });
+                } else {
+                    statements.push(finish);
+                }
+            }
             Instruction::DecodeForeign(target, data, type_ref, args) => {
                 let target = emit_target(target);
                 let data = emit_register(*data);
diff --git a/protospec-build/src/ffi/transform.rs b/protospec-build/src/ffi/transform.rs
index dbfe14c..b6de87d 100644
--- a/protospec-build/src/ffi/transform.rs
+++ b/protospec-build/src/ffi/transform.rs
@@ -20,6 +20,12 @@ pub trait ForeignTransform {
         is_async: bool,
     ) -> TokenStream;
 
+    /// output code should be statements that complete the stream emitted by [`ForeignTransform::decoding_gen`],
+    /// a mutable reference, once what was needed of it has been read. does nothing by default.
+    fn decoding_finish_gen(&self, _stream: TokenStream, _is_async: bool) -> TokenStream {
+        quote! {}
+    }
+
     /// output code should be statements that complete the stream emitted by [`ForeignTransform::encoding_gen`],
     /// returning any error of the underlying stream. the stream is dropped afterwards.
     fn finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index eaeb58d..008217f 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -15,7 +15,20 @@ impl ForeignTransform for GzipTransform {
             }
         } else {
             quote! {
-                std::io::BufReader::new(flate2::read::GzDecoder::new(#input_stream))
+                std::io::BufReader::new(flate2::bufread::GzDecoder::new(#input_stream))
+            }
+        }
+    }
+
+    fn decoding_finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        // up to the end of what is compressed, where its checksum is
+        if is_async {
+            quote! {
+                tokio::io::copy(&mut *#stream, &mut tokio::io::sink()).await?;
+            }
+        } else {
+            quote! {
+                std::io::copy(&mut *#stream, &mut std::io::sink())?;
             }
         }
     }
-- 
2.43.0


From 75a26a8806623f74a913c7404df79bd2f80472d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 77/94] fix: end asynchronously written gzip members

---
 protospec-build/src/prelude/gzip.rs | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 008217f..aecb11f 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -41,7 +41,34 @@ impl ForeignTransform for GzipTransform {
     ) -> TokenStream {
         if is_async {
             quote! {
-                async_compression::tokio::write::GzipEncoder::new(#input_stream)
+                {
+                    // what is below the encoder outlives it, which ends by being shut down
+                    struct Unclosed<W>(W);
+                    impl<W: AsyncWrite + Unpin> AsyncWrite for Unclosed<W> {
+                        fn poll_write(
+                            mut self: std::pin::Pin<&mut Self>,
+                            context: &mut std::task::Context<'_>,
+                            data: &[u8],
+                        ) -> std::task::Poll<std::io::Result<usize>> {
+                            std::pin::Pin::new(&mut self.0).poll_write(context, data)
+                        }
+
+                        fn poll_flush(
+                            mut self: std::pin::Pin<&mut Self>,
+                            context: &mut std::task::Context<'_>,
+                        ) -> std::task::Poll<std::io::Result<()>> {
+                            std::pin::Pin::new(&mut self.0).poll_flush(context)
+                        }
+
+                        fn poll_shutdown(
+                            self: std::pin::Pin<&mut Self>,
+                            context: &mut std::task::Context<'_>,
+                        ) -> std::task::Poll<std::io::Result<()>> {
+                            self.poll_flush(context)
+                        }
+                    }
+                    async_compression::tokio::write::GzipEncoder::new(Unclosed(#input_stream))
+                }
             }
         } else {
             quote! {
@@ -53,7 +80,7 @@ impl ForeignTransform for GzipTransform {
     fn finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
         if is_async {
             quote! {
-                #stream.flush().await?;
+                #stream.shutdown().await?;
             }
         } else {
             quote! {
-- 
2.43.0


From 4f2b42d5d28f0e28a5ce90a357497e2eccd64aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 78/94] fix: calculate conditional fields only where they are
 present

---
 protospec-build/src/coder/encode/container.rs | 29 ++++++++++++-------
 protospec-build/src/coder/encode/field.rs     |  1 -
 .../src/coder/encode/instruction.rs           |  7 +++++
 protospec-build/src/compiler/encoder.rs       | 14 +++++++++
 .../src/semantics/convert/type_/container.rs  | 24 +++++++++++++--
 5 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index b881cee..eddcb4b 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -58,16 +58,14 @@ impl Context {
     fn encode_container_calculated(&mut self, container: &ContainerType) {
         let mut pending: Vec<(String, Arc<Field>)> = container
             .flatten_view()
-            .filter(|(_, field)| {
-                matches!(&*field.calculated.borrow(), Some(x) if x.blen_calls().is_empty())
-            })
+            .filter(|(_, field)| field.calculated.borrow().is_some() && !field.is_measured())
             .collect();
         while !pending.is_empty() {
             // a value comes after those it is calculated from
             let next = pending
                 .iter()
                 .position(|(_, field)| {
-                    let needed = field.calculated.borrow().as_ref().unwrap().needed_fields();
+                    let needed = field.calculation_fields();
                     !pending
                         .iter()
                         .any(|(_, other)| needed.iter().any(|x| Arc::ptr_eq(x, other)))
@@ -76,15 +74,26 @@ impl Context {
             let (name, field) = pending.remove(next);
             let calculated = field.calculated.borrow();
             if let Some(calculated) = &*calculated {
-                let calculated_register = self.alloc_register();
-                self.instructions
-                    .push(Instruction::Eval(calculated_register, calculated.clone()));
+                let calculated_register = self.eval_calculated(&field, calculated.clone());
                 self.instructions
                     .push(Instruction::SetRef(name, calculated_register));
             }
         }
     }
 
+    /// a field which is absent is not calculated
+    fn eval_calculated(&mut self, field: &Arc<Field>, calculated: Expression) -> usize {
+        let condition = self.encode_field_condition(field);
+        let calculated_register = self.alloc_register();
+        self.instructions.push(match condition {
+            Some(condition) => {
+                Instruction::EvalConditional(calculated_register, condition, calculated)
+            }
+            None => Instruction::Eval(calculated_register, calculated),
+        });
+        calculated_register
+    }
+
     fn eval_blen_expr(
         &mut self,
         blens: &[String],
@@ -102,9 +111,7 @@ impl Context {
         let mut calculated = calculated.clone();
         calculated.rewrite_blen_calls(&blen_map);
 
-        let calculated_register = self.alloc_register();
-        self.instructions
-            .push(Instruction::Eval(calculated_register, calculated));
+        let calculated_register = self.eval_calculated(field, calculated);
         self.instructions
             .push(Instruction::SetRef(field.name.clone(), calculated_register));
         calculated_register
@@ -122,7 +129,7 @@ impl Context {
             let calculated = child.calculated.borrow();
             if let Some(calculated) = &*calculated {
                 let blen_calls = calculated.blen_calls();
-                if !blen_calls.is_empty() {
+                if child.is_measured() {
                     let mut all_resolved = true;
                     for target in &blen_calls {
                         if !self.resolved_autos.contains_key(target) {
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index ab3da89..5fafb2d 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -138,7 +138,6 @@ impl Context {
 
         let source = if self_conditional
             && !is_psuedocontainer
-            && !field.calculated.borrow().is_some()
             && !field.is_pad.get()
         {
             let real_source = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index d5f0355..c683c09 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -9,6 +9,8 @@ use super::*;
 pub enum Instruction {
     /// dest, expression
     Eval(usize, Expression),
+    /// dest, condition, expression
+    EvalConditional(usize, usize, Expression),
     /// dest, source, ops
     GetField(usize, usize, Vec<FieldRef>),
     /// dest, ref name
@@ -95,6 +97,11 @@ impl fmt::Display for Instruction {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Instruction::Eval(dest, expression) => write!(f, "Eval({}, {:?})", dest, expression),
+            Instruction::EvalConditional(dest, condition, expression) => write!(
+                f,
+                "EvalConditional({}, {}, {:?})",
+                dest, condition, expression
+            ),
             Instruction::GetField(dest, source, ops) => {
                 write!(f, "GetField({}, {}, {:?})", dest, source, ops)
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index b564f63..cb18e3c 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -66,6 +66,20 @@ impl EncoderContext {
         for instruction in instructions.iter() {
             // println!("encoding {}", instruction);
             match instruction {
+                Instruction::EvalConditional(target, condition, expr) => {
+                    let target = emit_register(*target);
+                    let condition = emit_register(*condition);
+                    let value = emit_expression(expr, &|f: &Arc<Field>| {
+                        let register = self
+                            .resolved_refs
+                            .get(&*f.name)
+                            .expect("failed to dereference");
+                        emit_register(*register)
+                    });
+                    statements.push(quote! {
+                        let #target = if #condition { Some(#value) } else { None };
+                    });
+                }
                 Instruction::Eval(target, expr) => {
                     let target = emit_register(*target);
                     let value = emit_expression(expr, &|f: &Arc<Field>| {
diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 7eefd80..22bfe73 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -165,7 +165,7 @@ impl ContainerType {
             .flatten_view()
             .map(|(_, field)| field)
             .filter(|field| field.calculated.borrow().is_some())
-            .partition(|field| !field.measured_fields().is_empty());
+            .partition(|field| field.is_measured());
 
         for field in measured.iter().chain(pending.iter()) {
             let calculated = field.calculated.borrow();
@@ -173,8 +173,7 @@ impl ContainerType {
         }
         while !pending.is_empty() {
             let next = pending.iter().position(|field| {
-                let calculated = field.calculated.borrow();
-                let needed = calculated.as_ref().unwrap().needed_fields();
+                let needed = field.calculation_fields();
                 !pending
                     .iter()
                     .any(|other| needed.iter().any(|x| Arc::ptr_eq(x, other)))
@@ -247,6 +246,25 @@ impl Field {
         out
     }
 
+    /// whether the field is calculated where it is written, as it needs encoded lengths
+    pub(crate) fn is_measured(&self) -> bool {
+        let needs_measured = match (&*self.calculated.borrow(), &*self.condition.borrow()) {
+            (Some(_), Some(condition)) => condition.needed_fields().iter().any(|x| {
+                !std::ptr::eq(&**x, self) && x.is_measured()
+            }),
+            _ => false,
+        };
+        needs_measured || !self.measured_fields().is_empty()
+    }
+
+    /// the fields which have to be known to calculate the field
+    pub(crate) fn calculation_fields(&self) -> Vec<Arc<Field>> {
+        let calculated = self.calculated.borrow();
+        let condition = self.condition.borrow();
+        let needed = calculated.iter().chain(condition.iter());
+        needed.flat_map(|x| x.needed_fields()).collect()
+    }
+
     fn check_needed(&self, needed: &Expression, unmeasured: &[Arc<Field>]) -> AsgResult<()> {
         match needed
             .needed_fields()
-- 
2.43.0


From 127025cd66d01877ef2c28f895f55888a44f13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 79/94] fix: calculate fields of conditional containers where
 these are encoded

---
 protospec-build/src/asg/types/container.rs    | 15 +++++++++++++++
 protospec-build/src/coder/encode/container.rs | 12 ++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/asg/types/container.rs b/protospec-build/src/asg/types/container.rs
index f86be02..8966926 100644
--- a/protospec-build/src/asg/types/container.rs
+++ b/protospec-build/src/asg/types/container.rs
@@ -17,4 +17,19 @@ impl ContainerType {
                 _ => vec![(name.clone(), field.clone())],
             })
     }
+
+    /// the fields of the container and of those inside without conditions,
+    /// or its own ones only if it has a condition itself
+    pub(crate) fn present_view<'a>(
+        &'a self,
+        conditional: bool,
+    ) -> impl Iterator<Item = (String, Arc<Field>)> + 'a {
+        self.items
+            .iter()
+            .flat_map(move |(name, field)| match &*field.type_.borrow() {
+                Type::Container(_) if conditional || field.condition.borrow().is_some() => vec![],
+                Type::Container(x) => x.present_view(false).collect::<Vec<_>>(),
+                _ => vec![(name.clone(), field.clone())],
+            })
+    }
 }
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index eddcb4b..c417e97 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -55,9 +55,10 @@ impl Context {
         }
     }
 
-    fn encode_container_calculated(&mut self, container: &ContainerType) {
+    /// calculates the fields of a container and of those inside which are present whenever it is
+    fn encode_container_calculated(&mut self, container: &ContainerType, conditional: bool) {
         let mut pending: Vec<(String, Arc<Field>)> = container
-            .flatten_view()
+            .present_view(conditional)
             .filter(|(_, field)| field.calculated.borrow().is_some() && !field.is_measured())
             .collect();
         while !pending.is_empty() {
@@ -289,7 +290,7 @@ impl Context {
                         for (name, register, _) in unwrapped {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
-                        self.encode_container_calculated(type_);
+                        self.encode_container_calculated(type_, false);
                         let (target, new_streams) = self.encode_transforms(buf_target, child);
                         let (interior, declared_length) =
                             self.begin_container_length(child, type_, target);
@@ -339,9 +340,12 @@ impl Context {
         } else {
             if field.toplevel {
                 self.encode_container_refs(type_, source);
-                self.encode_container_calculated(type_);
+                self.encode_container_calculated(type_, conditional);
             } else {
                 self.nullcheck_container_refs(type_, conditional);
+                if conditional {
+                    self.encode_container_calculated(type_, conditional);
+                }
             }
             self.encode_container_items(type_, buf_target, source, conditional);
         }
-- 
2.43.0


From 16f1eccc614801344532fdee5664ae659f44e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:02 +0000
Subject: [PATCH 80/94] fix: refuse enum variants with the value of another one

---
 protospec-build/src/asg/expression/mod.rs            | 8 ++++++++
 protospec-build/src/semantics/convert/type_/enum_.rs | 9 +++++++++
 protospec-build/src/semantics/error.rs               | 2 ++
 3 files changed, 19 insertions(+)

diff --git a/protospec-build/src/asg/expression/mod.rs b/protospec-build/src/asg/expression/mod.rs
index 000262f..863ce8d 100644
--- a/protospec-build/src/asg/expression/mod.rs
+++ b/protospec-build/src/asg/expression/mod.rs
@@ -80,6 +80,14 @@ impl Expression {
         }
     }
 
+    /// whether both are integers of one value
+    pub(crate) fn same_int(&self, other: &Expression) -> bool {
+        match (self, other) {
+            (Expression::Int(left), Expression::Int(right)) => left.value == right.value,
+            _ => false,
+        }
+    }
+
     /// the fields whose values the expression needs
     pub(crate) fn needed_fields(&self) -> Vec<Arc<Field>> {
         let mut measured = vec![];
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index 6941a02..1add5ae 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -58,6 +58,15 @@ impl Scope {
                     if !matches!(value, Expression::Int(_)) {
                         return Err(AsgError::InvalidConstExpression(name.span));
                     }
+                    if let Some((prior, _)) = items.iter().find(
+                        |(_, item)| matches!(item, EnumValue::Value(item) if item.value.same_int(&value)),
+                    ) {
+                        return Err(AsgError::EnumValueRedefinition(
+                            name.name.clone(),
+                            name.span,
+                            prior.clone(),
+                        ));
+                    }
                     EnumValue::Value(Arc::new(Const {
                         name: name.name.clone(),
                         span: type_.span,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index cc646fc..ea974c4 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -43,6 +43,8 @@ pub enum AsgError {
     ContainerFieldRedefinition(String, Span, Span),
     #[error("type '{0}' @ {1} refers to nothing but itself")]
     RecursiveType(String, Span),
+    #[error("enum variant '{0}' @ {1} has the value of variant '{2}'")]
+    EnumValueRedefinition(String, Span, String),
     #[error("referenced type '{0}' @ {1} not found")]
     UnresolvedType(String, Span),
     #[error("referenced variable '{0}' @ {1} not found")]
-- 
2.43.0


From 3340b67f42295f86e47f2db44aa38ba8d03eb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:08 +0000
Subject: [PATCH 81/94] fix: refuse bitfield flags whose generated names are in
 use

---
 .../src/semantics/convert/type_/bitfield.rs   | 34 +++++++++++++++++++
 protospec-build/src/semantics/error.rs        |  2 ++
 2 files changed, 36 insertions(+)

diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index c4ce562..d812a58 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -1,5 +1,20 @@
+use case::CaseExt;
+
 use super::*;
 
+/// what the generated types of all bitfields have
+const RESERVED_FLAGS: &[&str] = &[
+    "all",
+    "zero",
+    "from_repr",
+    "to_be_bytes",
+    "to_le_bytes",
+    "decode_sync",
+    "encode_sync",
+    "decode_async",
+    "encode_async",
+];
+
 impl Scope {
     pub(super) fn convert_bitfield_type(
         self_: &Arc<RefCell<Scope>>,
@@ -17,6 +32,25 @@ impl Scope {
                     prior.span,
                 ));
             }
+            // flags are constants and functions of the generated type
+            let flag = name.name.to_snake();
+            let taken = items
+                .keys()
+                .find(|x| {
+                    let other = x.to_snake();
+                    other == flag
+                        || flag.strip_prefix("set_") == Some(&*other)
+                        || other.strip_prefix("set_") == Some(&*flag)
+                })
+                .map(|x| &**x)
+                .or_else(|| RESERVED_FLAGS.iter().copied().find(|x| *x == flag));
+            if let Some(taken) = taken {
+                return Err(AsgError::BitfieldFlagCollision(
+                    name.name.clone(),
+                    name.span,
+                    taken.to_string(),
+                ));
+            }
             //todo: static eval here
             let value = match item {
                     Some(expr) => Scope::convert_expr(
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index ea974c4..cc3c616 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -45,6 +45,8 @@ pub enum AsgError {
     RecursiveType(String, Span),
     #[error("enum variant '{0}' @ {1} has the value of variant '{2}'")]
     EnumValueRedefinition(String, Span, String),
+    #[error("name of bitfield flag '{0}' @ {1} is in use by '{2}'")]
+    BitfieldFlagCollision(String, Span, String),
     #[error("referenced type '{0}' @ {1} not found")]
     UnresolvedType(String, Span),
     #[error("referenced variable '{0}' @ {1} not found")]
-- 
2.43.0


From 83924357dd7e00745715593edd2e53ceda5df6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:30 +0000
Subject: [PATCH 82/94] fix: refuse variants of tagged enums as operands of
 other ones

---
 .../src/semantics/convert/type_/container.rs          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 22bfe73..e13dc69 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -89,10 +89,13 @@ impl Scope {
                         had_unconditional_field = true;
                     }
 
-                    sub_scope
-                        .borrow_mut()
-                        .declared_fields
-                        .insert(name.name.clone(), field_out.clone());
+                    // there is only one of the variants of an enum
+                    if !is_enum {
+                        sub_scope
+                            .borrow_mut()
+                            .declared_fields
+                            .insert(name.name.clone(), field_out.clone());
+                    }
                     items.insert(name.name.clone(), field_out);
                 }
                 ContainerItem::Pad(expr) => {
-- 
2.43.0


From a043ec19aa6ffd0a378777ccb75a6d13170b1d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:57 +0000
Subject: [PATCH 83/94] fix: convert defaults of arguments before these are in
 scope

---
 protospec-build/src/semantics/convert/field.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index dedde8e..b496193 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -35,6 +35,11 @@ impl Scope {
                     &argument.type_.raw_type,
                     TypePurpose::Expression,
                 )?;
+                let default_value = argument
+                    .default_value
+                    .as_ref()
+                    .map(|expr| Scope::convert_expr(&sub_scope, expr, target_type.clone().into()))
+                    .transpose()?;
                 sub_scope.borrow_mut().declared_inputs.insert(
                     argument.name.name.clone(),
                     Arc::new(Input {
@@ -45,11 +50,7 @@ impl Scope {
                 arguments.push(TypeArgument {
                     name: argument.name.name.clone(),
                     type_: target_type.clone(),
-                    default_value: argument
-                        .default_value
-                        .as_ref()
-                        .map(|expr| Scope::convert_expr(&sub_scope, expr, target_type.into()))
-                        .transpose()?,
+                    default_value,
                     can_resolve_auto: false,
                 });
             }
-- 
2.43.0


From e3c2580238f09e61c73e6f9036c379929f1e88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:02 +0000
Subject: [PATCH 84/94] fix: refuse conditions of types which are generated as
 a whole

---
 protospec-build/src/semantics/convert/field.rs | 8 ++++++++
 protospec-build/src/semantics/error.rs         | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index b496193..e84fa2a 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -77,6 +77,14 @@ impl Scope {
         }
 
         let condition = if let Some(condition) = &field.condition {
+            if into.toplevel
+                && matches!(
+                    &asg_type,
+                    Type::Container(_) | Type::Enum(_) | Type::Bitfield(_)
+                )
+            {
+                return Err(AsgError::ConditionalType(field.span));
+            }
             Some(Scope::convert_expr(
                 &sub_scope,
                 &**condition,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index cc3c616..9835325 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -47,6 +47,8 @@ pub enum AsgError {
     EnumValueRedefinition(String, Span, String),
     #[error("name of bitfield flag '{0}' @ {1} is in use by '{2}'")]
     BitfieldFlagCollision(String, Span, String),
+    #[error("enums, bitfields and containers cannot be conditional, but the fields of their types can @ {0}")]
+    ConditionalType(Span),
     #[error("referenced type '{0}' @ {1} not found")]
     UnresolvedType(String, Span),
     #[error("referenced variable '{0}' @ {1} not found")]
-- 
2.43.0


From 99185e8dcc96a8278a3ad6c9c695bff09cae479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 85/94] fix: refuse types of infinite size and operands of
 other types than needed

---
 .../src/asg/expression/array_index.rs         |   2 +-
 protospec-build/src/semantics/check.rs        | 258 ++++++++++++++++++
 .../src/semantics/convert/program/mod.rs      |   1 +
 protospec-build/src/semantics/error.rs        |   6 +
 protospec-build/src/semantics/mod.rs          |   2 +
 5 files changed, 268 insertions(+), 1 deletion(-)
 create mode 100644 protospec-build/src/semantics/check.rs

diff --git a/protospec-build/src/asg/expression/array_index.rs b/protospec-build/src/asg/expression/array_index.rs
index bd9dd2e..80eb090 100644
--- a/protospec-build/src/asg/expression/array_index.rs
+++ b/protospec-build/src/asg/expression/array_index.rs
@@ -10,7 +10,7 @@ pub struct ArrayIndexExpression {
 impl AsgExpression for ArrayIndexExpression {
     fn get_type(&self) -> Option<Type> {
         let parent_type = self.array.get_type()?;
-        match parent_type {
+        match parent_type.resolved().as_ref() {
             Type::Array(parent_type) => Some(parent_type.element.as_ref().clone()),
             _ => None,
         }
diff --git a/protospec-build/src/semantics/check.rs b/protospec-build/src/semantics/check.rs
new file mode 100644
index 0000000..c1bb5f6
--- /dev/null
+++ b/protospec-build/src/semantics/check.rs
@@ -0,0 +1,258 @@
+//! checks of whole programs, when everything in them is known
+
+use super::*;
+
+impl Program {
+    pub(crate) fn check(&self) -> AsgResult<()> {
+        for field in self.types.values() {
+            if field.contained().any(|x| Arc::ptr_eq(&x, field)) {
+                return Err(AsgError::InfiniteType(field.name.clone(), field.span));
+            }
+            field.check_operands()?;
+        }
+        Ok(())
+    }
+}
+
+impl Field {
+    /// the types whose values are parts of values of this one
+    fn contained(&self) -> impl Iterator<Item = Arc<Field>> {
+        let mut out = vec![];
+        self.type_.borrow().add_contained(&mut out);
+        let mut i = 0;
+        while i < out.len() {
+            let next = out[i].clone();
+            next.type_.borrow().add_contained(&mut out);
+            i += 1;
+        }
+        out.into_iter()
+    }
+
+    /// checks that what may be absent is only used where that is provided for
+    fn check_operands(&self) -> AsgResult<()> {
+        for argument in &*self.arguments.borrow() {
+            if let Some(default) = &argument.default_value {
+                self.check_whole(default, &argument.type_)?;
+            }
+        }
+        self.check_expressions(&*self.condition.borrow())?;
+        if let Some(calculated) = &*self.calculated.borrow() {
+            self.check_whole(calculated, &self.type_.borrow())?;
+        }
+        for transform in &*self.transforms.borrow() {
+            self.check_expressions(&transform.condition)?;
+            self.check_expressions(&transform.arguments)?;
+        }
+        self.check_type_operands(&self.type_.borrow())
+    }
+
+    fn check_type_operands(&self, type_: &Type) -> AsgResult<()> {
+        match type_ {
+            Type::Container(container) => {
+                self.check_expressions(&container.length)?;
+                container.items.values().try_for_each(|x| x.check_operands())
+            }
+            Type::Array(array) => {
+                self.check_expressions(&array.length.value)?;
+                self.check_type_operands(&array.element)
+            }
+            Type::Ref(target) => {
+                let arguments = target.target.arguments.borrow();
+                for (value, argument) in target.arguments.iter().zip(arguments.iter()) {
+                    if argument.type_.is_wrapped() {
+                        return Err(self.wrapped_operand(value, &argument.type_));
+                    }
+                    self.check_whole(value, &argument.type_)?;
+                }
+                Ok(())
+            }
+            _ => Ok(()),
+        }
+    }
+
+    /// checks an expression which is a value of a type
+    fn check_whole(&self, expression: &Expression, type_: &Type) -> AsgResult<()> {
+        if !type_.is_wrapped() {
+            if expression
+                .get_type()
+                .map_or(false, |x| !x.same_generated(type_))
+            {
+                return Err(self.wrapped_operand(expression, type_));
+            }
+            return self.check_present(expression);
+        }
+        if !matches!(expression, Expression::FieldRef(_)) || !expression.get_type().map_or(false, |x| x.same_generated(type_)) {
+            return Err(self.wrapped_operand(expression, type_));
+        }
+        match self.absent(expression)? {
+            Some(field) => Err(self.optional_operand(&field)),
+            None => Ok(()),
+        }
+    }
+
+    fn wrapped_operand(&self, expression: &Expression, type_: &Type) -> AsgError {
+        let got = match expression.get_type() {
+            Some(type_) => type_.to_string(),
+            None => "none".to_string(),
+        };
+        AsgError::UnexpectedType(got, type_.to_string(), self.span)
+    }
+
+    fn optional_operand(&self, field: &Field) -> AsgError {
+        AsgError::OptionalOperand(field.name.clone(), self.name.clone(), self.span)
+    }
+
+    fn check_expressions<'a>(
+        &self,
+        expressions: impl IntoIterator<Item = &'a Expression>,
+    ) -> AsgResult<()> {
+        expressions
+            .into_iter()
+            .try_for_each(|x| self.check_present(x))
+    }
+
+    fn check_present(&self, expression: &Expression) -> AsgResult<()> {
+        if let Some(field) = self.absent(expression)? {
+            return Err(self.optional_operand(&field));
+        }
+        match expression.get_type() {
+            Some(type_) if type_.is_wrapped() => {
+                Err(self.wrapped_operand(expression, &type_.resolved()))
+            }
+            _ => Ok(()),
+        }
+    }
+
+    /// the field which may leave the expression without a value, if there is one
+    fn absent(&self, expression: &Expression) -> AsgResult<Option<Arc<Field>>> {
+        use Expression::*;
+        match expression {
+            FieldRef(field) => return Ok(field.condition.borrow().as_ref().map(|_| field.clone())),
+            Binary(e) => {
+                use crate::BinaryOp::*;
+                let left = self.absent(&e.left)?;
+                if let (Eq | Ne | Elvis, Some(left), Some(right)) =
+                    (&e.op, e.left.get_type(), e.right.get_type())
+                {
+                    if !left.same_generated(&right) {
+                        return Err(self.wrapped_operand(&e.right, &left));
+                    }
+                }
+                match e.op {
+                    Elvis if left.is_none() => {
+                        return Err(AsgError::PresentOperand(self.name.clone(), e.span))
+                    }
+                    Elvis => self.check_present(&e.right)?,
+                    // both may be absent, and are compared as such
+                    Lt | Gt | Lte | Gte | Eq | Ne if left.is_some() => {
+                        if self.absent(&e.right)?.is_none() {
+                            self.check_present(&e.left)?;
+                        }
+                    }
+                    Eq | Ne if e.left.get_type().map_or(false, |x| x.is_wrapped()) => {
+                        self.absent(&e.right)?;
+                    }
+                    _ => {
+                        self.check_present(&e.left)?;
+                        self.check_present(&e.right)?;
+                    }
+                }
+            }
+            Unary(e) => self.check_present(&e.inner)?,
+            Cast(e) => {
+                self.check_present(&e.inner)?;
+                // there may be no value for it
+                let target = e.type_.resolved().into_owned();
+                if let (Type::Enum(_) | Type::Bitfield(_), Some(from)) =
+                    (&target, e.inner.get_type())
+                {
+                    if *from.resolved() != target {
+                        return Err(AsgError::IllegalCast(
+                            from.to_string(),
+                            target.to_string(),
+                            e.span,
+                        ));
+                    }
+                }
+            }
+            ArrayIndex(e) => {
+                self.check_present(&e.array)?;
+                self.check_present(&e.index)?;
+            }
+            Ternary(e) => {
+                self.check_present(&e.condition)?;
+                if let (Some(if_true), Some(if_false)) =
+                    (e.if_true.get_type(), e.if_false.get_type())
+                {
+                    if !if_true.same_generated(&if_false) {
+                        return Err(self.wrapped_operand(&e.if_false, &if_true));
+                    }
+                }
+                // either both may be absent or none of them
+                if let Some(field) = self.absent(&e.if_true)? {
+                    if self.absent(&e.if_false)?.is_some() {
+                        return Ok(Some(field));
+                    }
+                    self.check_present(&e.if_true)?;
+                }
+                self.check_present(&e.if_false)?;
+            }
+            Call(e) if e.function.name == "blen" => {
+                for argument in &e.arguments {
+                    if let Some(field) = self.absent(argument)? {
+                        return Err(self.optional_operand(&field));
+                    }
+                }
+            }
+            Call(e) => self.check_expressions(&e.arguments)?,
+            Member(e) => self.check_present(&e.target)?,
+            EnumAccess(_) | Int(_) | ConstRef(_) | InputRef(_) | Str(_) | Bool(_) => (),
+        }
+        Ok(None)
+    }
+}
+
+impl Type {
+    /// whether values are of a type generated for a declaration around another one
+    fn is_wrapped(&self) -> bool {
+        match self {
+            Type::Ref(x) => !matches!(
+                &*x.target.type_.borrow(),
+                Type::Enum(_) | Type::Bitfield(_) | Type::Foreign(_)
+            ),
+            _ => false,
+        }
+    }
+
+    /// whether values of both are of one generated type, given that they are of similar ones
+    fn same_generated(&self, other: &Type) -> bool {
+        match (self, other) {
+            (Type::Ref(left), Type::Ref(right)) if self.is_wrapped() || other.is_wrapped() => {
+                Arc::ptr_eq(&left.target, &right.target)
+            }
+            _ if self.is_wrapped() || other.is_wrapped() => false,
+            (Type::Array(left), Type::Array(right)) => left.element.same_generated(&right.element),
+            _ => match (&*self.resolved(), &*other.resolved()) {
+                (Type::Foreign(left), Type::Foreign(right)) => left == right,
+                (Type::Foreign(foreign), _) | (_, Type::Foreign(foreign)) => foreign.obj.copyable(),
+                _ => true,
+            },
+        }
+    }
+
+    fn add_contained(&self, out: &mut Vec<Arc<Field>>) {
+        match self {
+            Type::Ref(x) => {
+                if !out.iter().any(|y| Arc::ptr_eq(y, &x.target)) {
+                    out.push(x.target.clone());
+                }
+            }
+            Type::Container(x) => {
+                for field in x.items.values() {
+                    field.type_.borrow().add_contained(out);
+                }
+            }
+            _ => (),
+        }
+    }
+}
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 885664b..75d2d5a 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -141,6 +141,7 @@ impl Program {
             .into_inner();
 
         program.scan_cycles();
+        program.check()?;
         Ok(program)
     }
 }
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 9835325..ef7ed6a 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -43,12 +43,18 @@ pub enum AsgError {
     ContainerFieldRedefinition(String, Span, Span),
     #[error("type '{0}' @ {1} refers to nothing but itself")]
     RecursiveType(String, Span),
+    #[error("type '{0}' @ {1} contains itself other than in an array")]
+    InfiniteType(String, Span),
     #[error("enum variant '{0}' @ {1} has the value of variant '{2}'")]
     EnumValueRedefinition(String, Span, String),
     #[error("name of bitfield flag '{0}' @ {1} is in use by '{2}'")]
     BitfieldFlagCollision(String, Span, String),
     #[error("enums, bitfields and containers cannot be conditional, but the fields of their types can @ {0}")]
     ConditionalType(Span),
+    #[error("field '{0}' may be absent in the expression of '{1}' @ {2} (use ?: to give a value for its absence)")]
+    OptionalOperand(String, String, Span),
+    #[error("left side of ?: is always present in the expression of '{0}' @ {1}")]
+    PresentOperand(String, Span),
     #[error("referenced type '{0}' @ {1} not found")]
     UnresolvedType(String, Span),
     #[error("referenced variable '{0}' @ {1} not found")]
diff --git a/protospec-build/src/semantics/mod.rs b/protospec-build/src/semantics/mod.rs
index 596dd46..7bf4ad2 100644
--- a/protospec-build/src/semantics/mod.rs
+++ b/protospec-build/src/semantics/mod.rs
@@ -21,4 +21,6 @@ mod program;
 
 mod resolve;
 
+mod check;
+
 mod convert;
-- 
2.43.0


From f9623b7bfb02b2114f1e3f09280d004818f364a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:12 +0000
Subject: [PATCH 86/94] fix: pass and use arguments and elements which cannot
 be copied, and flags by name

---
 protospec-build/src/coder/mod.rs        | 30 ++++++++++++-----
 protospec-build/src/compiler/decoder.rs | 10 ++++--
 protospec-build/src/compiler/expr.rs    | 38 ++++++++++++++++-----
 protospec-build/src/compiler/mod.rs     | 44 ++++++++++++++++++-------
 4 files changed, 90 insertions(+), 32 deletions(-)

diff --git a/protospec-build/src/coder/mod.rs b/protospec-build/src/coder/mod.rs
index ce394b5..49d9d36 100644
--- a/protospec-build/src/coder/mod.rs
+++ b/protospec-build/src/coder/mod.rs
@@ -30,16 +30,22 @@ impl Target {
 }
 
 /// an argument passed to the coder of a referenced type
-#[derive(Clone, Copy, Debug)]
+#[derive(Clone, Debug)]
 pub enum RefArgument {
-    /// register of the value of an argument without a default
-    Required(usize),
-    /// register of the value of an argument with a default
-    Optional(usize),
+    /// value of an argument without a default
+    Required(RefArgumentValue),
+    /// value of an argument with a default
+    Optional(RefArgumentValue),
     /// argument left to its default
     Default,
 }
 
+#[derive(Clone, Debug)]
+pub struct RefArgumentValue {
+    pub register: usize,
+    pub type_: crate::asg::Type,
+}
+
 impl RefArgument {
     /// pairs given registers with the arguments the target declares
     pub fn from_registers(target: &Field, registers: Vec<usize>) -> Vec<RefArgument> {
@@ -48,10 +54,16 @@ impl RefArgument {
             .borrow()
             .iter()
             .enumerate()
-            .map(|(i, argument)| match registers.get(i) {
-                Some(r) if argument.default_value.is_some() => RefArgument::Optional(*r),
-                Some(r) => RefArgument::Required(*r),
-                None => RefArgument::Default,
+            .map(|(i, argument)| {
+                let value = registers.get(i).map(|register| RefArgumentValue {
+                    register: *register,
+                    type_: argument.type_.clone(),
+                });
+                match value {
+                    Some(value) if argument.default_value.is_some() => RefArgument::Optional(value),
+                    Some(value) => RefArgument::Required(value),
+                    None => RefArgument::Default,
+                }
             })
             .collect()
     }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index aa1edf3..3f0aeeb 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -72,11 +72,17 @@ fn prepare_decode(
             Instruction::Eval(target, expr, field_register_map) => {
                 let target = emit_register(*target);
                 let value = emit_expression(expr, &|field| {
-                    emit_register(
+                    let register = emit_register(
                         *field_register_map
                             .get(&field.name)
                             .expect("missing register for field"),
-                    )
+                    );
+                    if field.type_.borrow().copyable() {
+                        register
+                    } else {
+                        // the value goes into that of the container
+                        quote! { (&#register) }
+                    }
                 });
                 statements.push(quote! {
                     let #target = #value;
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 9268859..ed3ff76 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -255,6 +255,15 @@ fn is_integer(expr: &Expression) -> bool {
     }
 }
 
+/// the value of an expression where another one can be in its place
+fn emit_branch(value: TokenStream, expr: &Expression) -> TokenStream {
+    match expr.get_type().map(|type_| type_.resolved().into_owned()) {
+        // of strings, and of fields
+        Some(Type::Array(_)) => quote! { (&(#value)[..]) },
+        _ => value,
+    }
+}
+
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
@@ -294,9 +303,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 _ => (),
             }
             if c.op == BinaryOp::Elvis {
+                let value = emit_branch(quote! { value }, &c.right);
+                let right = emit_branch(right, &c.right);
                 quote! {
                     (match #left {
-                        Some(value) => value,
+                        Some(value) => #value,
                         None => #right,
                     })
                 }
@@ -376,13 +387,20 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let array = emit_expression(&c.array, ref_resolver);
             let index = emit_expression(&c.index, ref_resolver);
 
-            quote! {
-                (*(#array).get((#index) as usize).ok_or_else(arithmetic_error)?)
+            let element = quote! {
+                (#array).get((#index) as usize).ok_or_else(arithmetic_error)?
+            };
+            match c.get_type() {
+                Some(type_) if !type_.copyable() => quote! { (#element) },
+                _ => quote! { (*#element) },
             }
         }
         EnumAccess(c) => {
             let enum_name = emit_ident(&c.enum_field.name);
-            let enum_variant_name = emit_ident(&c.variant.name);
+            let enum_variant_name = match &*c.enum_field.type_.borrow() {
+                Type::Bitfield(_) => emit_ident(&c.variant.name.to_snake().to_uppercase()),
+                _ => emit_ident(&c.variant.name),
+            };
             quote! {
                 #enum_name::#enum_variant_name
             }
@@ -404,9 +422,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         ConstRef(c) => emit_expression(&c.value, ref_resolver),
         InputRef(c) => {
-            let c = format_ident!("{}", c.name);
-            quote! {
-                #c
+            let name = emit_argument(&c.name);
+            if c.type_.copyable() {
+                quote! { #name }
+            } else {
+                quote! { (&#name) }
             }
         }
         FieldRef(c) => ref_resolver(c),
@@ -418,8 +438,8 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Ternary(c) => {
             let condition = emit_expression(&c.condition, ref_resolver);
-            let if_true = emit_expression(&c.if_true, ref_resolver);
-            let if_false = emit_expression(&c.if_false, ref_resolver);
+            let if_true = emit_branch(emit_expression(&c.if_true, ref_resolver), &c.if_true);
+            let if_false = emit_branch(emit_expression(&c.if_false, ref_resolver), &c.if_false);
 
             quote! {
                 (if #condition {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 95e83e7..15735cc 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -216,7 +216,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     let mut arguments = vec![];
     let mut redefaults = vec![];
     for argument in field.arguments.borrow().iter() {
-        let name = emit_ident(&argument.name);
+        let name = emit_argument(&argument.name);
         let type_ref = emit_type_ref(&argument.type_);
         let opt_type_ref = if argument.default_value.is_some() {
             quote! { Option<#type_ref> }
@@ -225,7 +225,10 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
         };
         arguments.push(quote! {, #name: #opt_type_ref});
         if let Some(default_value) = argument.default_value.as_ref() {
-            let emitted = emit_expression(default_value, &ref_resolver);
+            let emitted = emit_owned(
+                emit_expression(default_value, &ref_resolver),
+                &argument.type_,
+            );
             redefaults.push(quote! {
                 let #name: #type_ref = if let Some(#name) = #name {
                     #name
@@ -283,6 +286,14 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     }
 }
 
+/// arguments of types, with names which nothing else has
+fn emit_argument(name: &str) -> TokenStream {
+    let ident = format_ident!("arg_{}", name);
+    quote! {
+        #ident
+    }
+}
+
 fn emit_ident(name: &str) -> TokenStream {
     let ident = format_ident!("{}", name);
     quote! {
@@ -297,18 +308,27 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+/// a value which arguments of a type can own
+fn emit_owned(value: TokenStream, type_: &Type) -> TokenStream {
+    match &*type_.resolved() {
+        type_ if type_.copyable() => value,
+        Type::Array(_) => quote! { #value.to_vec() },
+        _ => quote! { #value.to_owned() },
+    }
+}
+
 /// an argument in a call of the coder of a referenced type, with its separator
 fn emit_ref_argument(argument: &coder::RefArgument) -> TokenStream {
-    match argument {
-        coder::RefArgument::Required(register) => {
-            let register = emit_register(*register);
-            quote! { , #register }
-        }
-        coder::RefArgument::Optional(register) => {
-            let register = emit_register(*register);
-            quote! { , Some(#register) }
-        }
-        coder::RefArgument::Default => quote! { , None },
+    let (value, optional) = match argument {
+        coder::RefArgument::Required(value) => (value, false),
+        coder::RefArgument::Optional(value) => (value, true),
+        coder::RefArgument::Default => return quote! { , None },
+    };
+    let register = emit_owned(emit_register(value.register), &value.type_);
+    if optional {
+        quote! { , Some(#register) }
+    } else {
+        quote! { , #register }
     }
 }
 
-- 
2.43.0


From 09bfc000021bc5d803f5b377c918129c121d07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:16 +0000
Subject: [PATCH 87/94] fix: keep constants of enums and bitfields of their
 type

---
 protospec-build/src/semantics/convert/expression/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/mod.rs b/protospec-build/src/semantics/convert/expression/mod.rs
index 6b841d8..139c748 100644
--- a/protospec-build/src/semantics/convert/expression/mod.rs
+++ b/protospec-build/src/semantics/convert/expression/mod.rs
@@ -75,6 +75,12 @@ impl Scope {
 impl Expression {
     /// the value of an expression of constants in place of the expression
     pub(crate) fn fold(self, span: Span) -> Self {
+        if matches!(
+            self.get_type().map(|type_| type_.resolved().into_owned()),
+            Some(Type::Enum(_) | Type::Bitfield(_))
+        ) {
+            return self;
+        }
         match eval_const_expression(&self) {
             Some(ConstValue::Int(value)) => Expression::Int(Int {
                 value,
-- 
2.43.0


From bd6a0db19176ce67c17d64774eabf53bdd8f8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 88/94] fix: infer both sides of ternary expressions alike

---
 protospec-build/src/semantics/convert/expression/ternary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/ternary.rs b/protospec-build/src/semantics/convert/expression/ternary.rs
index a3336a2..988d418 100644
--- a/protospec-build/src/semantics/convert/expression/ternary.rs
+++ b/protospec-build/src/semantics/convert/expression/ternary.rs
@@ -13,6 +13,11 @@ impl Scope {
                 .get_type()
                 .map(|x| x.into())
                 .ok_or(AsgError::UninferredType(*expr.if_true.span()))?,
+            // of which only one can be that of both sides
+            PartialType::Scalar(PartialScalarType::None) => match if_true.get_type() {
+                Some(type_) if matches!(&*type_.resolved(), Type::Scalar(_)) => type_.into(),
+                _ => expected_type,
+            },
             x => x,
         };
         let if_false = Scope::convert_expr(self_, &expr.if_false, right_type)?;
-- 
2.43.0


From 5bdd6d7b4293757b98e9239e73bdfc1f14eaea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:00 +0000
Subject: [PATCH 89/94] fix: check operands of nested expressions once

---
 protospec-build/src/semantics/check.rs | 50 +++++++++++++++-----------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/protospec-build/src/semantics/check.rs b/protospec-build/src/semantics/check.rs
index c1bb5f6..09e1316 100644
--- a/protospec-build/src/semantics/check.rs
+++ b/protospec-build/src/semantics/check.rs
@@ -112,7 +112,16 @@ impl Field {
     }
 
     fn check_present(&self, expression: &Expression) -> AsgResult<()> {
-        if let Some(field) = self.absent(expression)? {
+        self.require_present(expression, self.absent(expression)?)
+    }
+
+    /// checks an expression of which it is known what may leave it without a value
+    fn require_present(
+        &self,
+        expression: &Expression,
+        absent: Option<Arc<Field>>,
+    ) -> AsgResult<()> {
+        if let Some(field) = absent {
             return Err(self.optional_operand(&field));
         }
         match expression.get_type() {
@@ -138,23 +147,22 @@ impl Field {
                         return Err(self.wrapped_operand(&e.right, &left));
                     }
                 }
+                if e.op == Elvis && left.is_none() {
+                    return Err(AsgError::PresentOperand(self.name.clone(), e.span));
+                }
+                let right = self.absent(&e.right)?;
                 match e.op {
-                    Elvis if left.is_none() => {
-                        return Err(AsgError::PresentOperand(self.name.clone(), e.span))
-                    }
-                    Elvis => self.check_present(&e.right)?,
+                    Elvis => self.require_present(&e.right, right)?,
                     // both may be absent, and are compared as such
-                    Lt | Gt | Lte | Gte | Eq | Ne if left.is_some() => {
-                        if self.absent(&e.right)?.is_none() {
-                            self.check_present(&e.left)?;
-                        }
-                    }
-                    Eq | Ne if e.left.get_type().map_or(false, |x| x.is_wrapped()) => {
-                        self.absent(&e.right)?;
-                    }
+                    Lt | Gt | Lte | Gte | Eq | Ne if left.is_some() && right.is_some() => (),
+                    // as are values of generated types
+                    Eq | Ne
+                        if left.is_none()
+                            && right.is_none()
+                            && e.left.get_type().map_or(false, |x| x.is_wrapped()) => {}
                     _ => {
-                        self.check_present(&e.left)?;
-                        self.check_present(&e.right)?;
+                        self.require_present(&e.left, left)?;
+                        self.require_present(&e.right, right)?;
                     }
                 }
             }
@@ -189,13 +197,13 @@ impl Field {
                     }
                 }
                 // either both may be absent or none of them
-                if let Some(field) = self.absent(&e.if_true)? {
-                    if self.absent(&e.if_false)?.is_some() {
-                        return Ok(Some(field));
-                    }
-                    self.check_present(&e.if_true)?;
+                let if_true = self.absent(&e.if_true)?;
+                let if_false = self.absent(&e.if_false)?;
+                if if_true.is_some() && if_false.is_some() {
+                    return Ok(if_true);
                 }
-                self.check_present(&e.if_false)?;
+                self.require_present(&e.if_true, if_true)?;
+                self.require_present(&e.if_false, if_false)?;
             }
             Call(e) if e.function.name == "blen" => {
                 for argument in &e.arguments {
-- 
2.43.0


From 82392ff8a8cc2f080c09181b7582d9a9482f03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:57 +0000
Subject: [PATCH 90/94] fix: spell names which are keywords of rust as
 identifiers

---
 protospec-build/src/compiler/decoder.rs |  4 +--
 protospec-build/src/compiler/encoder.rs |  2 +-
 protospec-build/src/compiler/expr.rs    |  2 +-
 protospec-build/src/compiler/mod.rs     | 41 ++++++++++++++++---------
 4 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 3f0aeeb..f6cc88b 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -308,7 +308,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let value = emit_register(*value);
 
-                let enum_ident = format_ident!("{}", &name);
+                let enum_ident = ident(&name);
                 let length = type_.size() as usize;
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
@@ -404,7 +404,7 @@ fn prepare_decode(
             Instruction::DecodeReprArray(target, data, name, type_, len) => {
                 let target = emit_target(target);
                 let data = emit_register(*data);
-                let enum_ident = format_ident!("{}", &name);
+                let enum_ident = ident(&name);
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index cb18e3c..59abace 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -102,7 +102,7 @@ impl EncoderContext {
                                 quote! { &#source }
                             }
                             FieldRef::Name(name) => {
-                                let name = format_ident!("{}", name);
+                                let name = ident(name);
                                 quote! { #source.#name }
                             }
                             FieldRef::ArrayAccess(index) => {
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index ed3ff76..aa2483c 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -341,7 +341,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Member(c) => {
             let target = emit_expression(&c.target, ref_resolver);
-            let get_member = format_ident!("{}", c.member.name.to_snake());
+            let get_member = ident(c.member.name.to_snake());
             quote! {
                 #target.#get_member()
             }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 15735cc..fdaa99d 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -148,8 +148,8 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
     });
     for (name, field) in program.types.iter() {
         if *name != field.name && !matches!(&*field.type_.borrow(), Type::Foreign(_)) {
-            let alias = format_ident!("{}", global_name(name));
-            let ident = format_ident!("{}", global_name(&field.name));
+            let alias = ident(global_name(name));
+            let ident = ident(global_name(&field.name));
             components.push(quote! {
                 pub use self::#ident as #alias;
             });
@@ -168,7 +168,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
                 components.push(generate_bitfield(&name, item, options));
             }
             generic => {
-                let ident = format_ident!("{}", global_name(name));
+                let ident = ident(global_name(name));
                 let type_ref = emit_type_ref(generic);
                 let type_ref = if field.condition.borrow().is_some() {
                     quote! {
@@ -202,7 +202,7 @@ fn ref_resolver(_f: &Arc<Field>) -> TokenStream {
 }
 
 fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
-    let container_ident = format_ident!("{}", global_name(&field.name));
+    let container_ident = ident(global_name(&field.name));
 
     let mut decode_context = coder::decode::Context::new();
     decode_context.decode_field_top(field);
@@ -294,8 +294,19 @@ fn emit_argument(name: &str) -> TokenStream {
     }
 }
 
+/// an identifier which is spelled in another way where it is a keyword of rust
+fn ident(name: impl AsRef<str>) -> proc_macro2::Ident {
+    match name.as_ref() {
+        name @ ("self" | "Self" | "super" | "crate" | "_") => format_ident!("{}_", name),
+        // not all editions have these
+        name @ ("async" | "await" | "dyn" | "try") => format_ident!("r#{}", name),
+        name if syn::parse_str::<proc_macro2::Ident>(name).is_err() => format_ident!("r#{}", name),
+        name => format_ident!("{}", name),
+    }
+}
+
 fn emit_ident(name: &str) -> TokenStream {
-    let ident = format_ident!("{}", name);
+    let ident = ident(name);
     quote! {
         #ident
     }
@@ -396,7 +407,7 @@ fn generate_container_fields_recur(
                 );
             }
             _ => {
-                let name_ident = format_ident!("{}", name);
+                let name_ident = ident(name);
                 let type_ref = emit_type_ref(&field.type_.borrow());
                 let type_ref = if conditional || field.condition.borrow().is_some() {
                     quote! {
@@ -425,12 +436,12 @@ pub fn generate_container(
     item: &ContainerType,
     options: &CompileOptions,
 ) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(name));
+    let name_ident = ident(global_name(name));
     if item.is_enum.get() {
         let derives = options.emit_enum_derives(&[]);
         let mut fields = vec![];
         for (name, field) in &item.items {
-            let name_ident = format_ident!("{}", name);
+            let name_ident = ident(name);
             let type_ = field.type_.borrow();
             let type_ref = match &*type_ {
                 Type::Container(sub_container) => {
@@ -456,7 +467,7 @@ pub fn generate_container(
         let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
             let (default_field, field) =
                 item.items.first().expect("missing enum entry for default");
-            let default_field = format_ident!("{}", default_field);
+            let default_field = ident(default_field);
 
             let type_ = field.type_.borrow();
             let default_value = match &*type_ {
@@ -466,7 +477,7 @@ pub fn generate_container(
                         if field.is_pad.get() {
                             continue;
                         }
-                        let name_ident = format_ident!("{}", name);
+                        let name_ident = ident(name);
 
                         fields.push(quote! {
                             #name_ident: Default::default(),
@@ -517,7 +528,7 @@ pub fn generate_container(
 }
 
 pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(name));
+    let name_ident = ident(global_name(name));
     let mut fields = vec![];
     let mut from_repr_matches = vec![];
     let mut to_repr_matches = vec![];
@@ -529,7 +540,7 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let rep = format_ident!("{}", item.rep.scalar.to_string());
 
     for (name, value) in item.items.iter() {
-        let discriminant_ident = format_ident!("{}", name);
+        let discriminant_ident = ident(name);
         match value {
             EnumValue::Value(value) => {
                 let value = eval_const_expression(&value.value);
@@ -581,7 +592,7 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
 
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
         let (default_field, value) = item.items.first().expect("missing enum entry for default");
-        let default_field = format_ident!("{}", default_field);
+        let default_field = ident(default_field);
         let default_value = match value {
             EnumValue::Default => quote! { (Default::default()) },
             EnumValue::Value(_) => quote! {},
@@ -655,7 +666,7 @@ pub fn generate_bitfield(
     item: &BitfieldType,
     options: &CompileOptions,
 ) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(bitfield_name));
+    let name_ident = ident(global_name(bitfield_name));
     let mut fields = vec![];
     let mut funcs = vec![];
     let mut all_fields = ConstInt::parse(item.rep.scalar, "0", crate::Span::default()).unwrap();
@@ -663,7 +674,7 @@ pub fn generate_bitfield(
 
     for (name, cons) in item.items.iter() {
         let name_ident = format_ident!("{}", name.to_snake().to_uppercase());
-        let get_name = format_ident!("{}", name.to_snake());
+        let get_name = ident(name.to_snake());
         let set_name = format_ident!("set_{}", name.to_snake());
         let value = eval_const_expression(&cons.value);
         if value.is_none() {
-- 
2.43.0


From 93d89b4e46cf12e4f22c8cd52c9038eb2e800225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:49 +0000
Subject: [PATCH 91/94] fix: widen floats where wider ones are expected

---
 protospec-build/src/compiler/expr.rs | 7 ++++++-
 protospec-build/src/compiler/mod.rs  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index aa2483c..75c5340 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -272,7 +272,12 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     match expr {
         Binary(c) => {
             let left = emit_expression(&c.left, ref_resolver);
-            let right = emit_expression(&c.right, ref_resolver);
+            let mut right = emit_expression(&c.right, ref_resolver);
+            let type_of =
+                |expr: &Expression| expr.get_type().map(|type_| type_.resolved().into_owned());
+            if let (Some(Type::F64), Some(Type::F32)) = (type_of(&c.left), type_of(&c.right)) {
+                right = quote! { (#right as f64) };
+            }
             let checked = match c.op {
                 BinaryOp::Add => Some("checked_add"),
                 BinaryOp::Sub => Some("checked_sub"),
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index fdaa99d..1de3220 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -322,6 +322,8 @@ fn emit_register(register: usize) -> TokenStream {
 /// a value which arguments of a type can own
 fn emit_owned(value: TokenStream, type_: &Type) -> TokenStream {
     match &*type_.resolved() {
+        // it may be a `f32`
+        Type::F64 => quote! { (#value as f64) },
         type_ if type_.copyable() => value,
         Type::Array(_) => quote! { #value.to_vec() },
         _ => quote! { #value.to_owned() },
-- 
2.43.0


From 80df57b824215c73227713a03131c781192aa7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:33 +0000
Subject: [PATCH 92/94] fix: refuse bitwise operators on floats

---
 protospec-build/src/asg/types/mod.rs                       | 4 ++++
 protospec-build/src/semantics/convert/expression/binary.rs | 5 +++++
 protospec-build/src/semantics/convert/expression/unary.rs  | 4 +++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 6deb5f8..8a8bf14 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -139,6 +139,10 @@ impl Type {
         }
     }
 
+    pub fn is_float(&self) -> bool {
+        matches!(&*self.resolved(), Type::F32 | Type::F64)
+    }
+
     pub fn assignable_from(&self, other: &Type) -> bool {
         if let (Some(t1), Some(t2)) = (self.declaration(), other.declaration()) {
             if Arc::ptr_eq(&t1, &t2) {
diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 8fc9de7..4bf827c 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -111,6 +111,11 @@ impl Scope {
             if !expected.assignable_from(&left_type)
                 && !expected.assignable_from(&right_type)
                 && !(left_type == Type::Bool && matches!(expr.op, BitAnd | BitOr | BitXor))
+                || left_type.is_float()
+                    && matches!(
+                        expr.op,
+                        BitAnd | BitOr | BitXor | Shl | Shr | ShrSigned
+                    )
             {
                 return Err(AsgError::UnexpectedType(
                     left_type.to_string(),
diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 722b755..8729ce5 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -33,7 +33,9 @@ impl Scope {
             }
             ast::UnaryOp::Negate | ast::UnaryOp::BitNot => {
                 if let Some(inner_type) = inner.get_type() {
-                    if !PartialType::Scalar(PartialScalarType::None).assignable_from(&inner_type) {
+                    if !PartialType::Scalar(PartialScalarType::None).assignable_from(&inner_type)
+                        || expr.op == ast::UnaryOp::BitNot && inner_type.is_float()
+                    {
                         return Err(AsgError::UnexpectedType(
                             inner_type.to_string(),
                             "integer".to_string(),
-- 
2.43.0


From 9093959a965493a52b7153edc863a9355c1deb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:36 +0000
Subject: [PATCH 93/94] fix: compare strings of any length, and cast to the
 same type

---
 protospec-build/src/compiler/expr.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 75c5340..48f13b7 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -317,6 +317,8 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     })
                 }
             } else {
+                let left = emit_branch(left, &c.left);
+                let right = emit_branch(right, &c.right);
                 let op = match c.op {
                     BinaryOp::Lt => quote! { < },
                     BinaryOp::Gt => quote! { > },
@@ -369,6 +371,13 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Cast(c) => {
             let inner = emit_expression(&c.inner, ref_resolver);
+            if matches!(
+                &*c.type_.resolved(),
+                Type::Enum(_) | Type::Bitfield(_) | Type::Container(_) | Type::Array(_)
+            ) {
+                // only to the same type
+                return inner;
+            }
             let target = emit_type_ref(&c.type_);
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
-- 
2.43.0


From c2c90c9ec378881b180592ef47af8180d68d35be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:23 +0000
Subject: [PATCH 94/94] fix: length of utf16 in its units, none of varints

---
 protospec-build/src/compiler/expr.rs | 10 +++++++---
 protospec-build/src/ffi/type_.rs     |  5 +++++
 protospec-build/src/prelude/len.rs   | 10 ++++++++--
 protospec-build/src/prelude/utf16.rs |  4 ++++
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 48f13b7..8f031d8 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -243,9 +243,13 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
 
 /// whether an expression has a value of an integer type of Rust
 fn is_integer(expr: &Expression) -> bool {
-    match expr.get_type().map(|type_| type_.resolved().into_owned()) {
-        Some(Type::Scalar(_)) => true,
-        Some(Type::Foreign(foreign)) => {
+    expr.get_type().map_or(false, |type_| is_integer_type(&type_))
+}
+
+pub(crate) fn is_integer_type(type_: &Type) -> bool {
+    match type_.resolved().as_ref() {
+        Type::Scalar(_) => true,
+        Type::Foreign(foreign) => {
             use crate::ScalarType::*;
             [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]
                 .iter()
diff --git a/protospec-build/src/ffi/type_.rs b/protospec-build/src/ffi/type_.rs
index a64e863..a7bcc40 100644
--- a/protospec-build/src/ffi/type_.rs
+++ b/protospec-build/src/ffi/type_.rs
@@ -90,4 +90,9 @@ pub trait ForeignType {
 
     /// If true, this type can be freely copied
     fn copyable(&self) -> bool;
+
+    /// The length of an expression of this type, in the unit its length is declared in
+    fn len_gen(&self, value: TokenStream) -> TokenStream {
+        quote::quote! { (#value).len() as u64 }
+    }
 }
diff --git a/protospec-build/src/prelude/len.rs b/protospec-build/src/prelude/len.rs
index b8015fe..212ad32 100644
--- a/protospec-build/src/prelude/len.rs
+++ b/protospec-build/src/prelude/len.rs
@@ -27,11 +27,12 @@ impl LenFunction {
                     #size
                 }
             }
-            Type::Array(_) | Type::Foreign(_) => {
+            Type::Array(_) => {
                 quote! {
                     (#value).len() as u64
                 }
             }
+            Type::Foreign(foreign) => foreign.obj.len_gen(value.clone()),
             Type::Ref(type_call) => self.len(&*type_call.target.type_.borrow(), value),
         }
     }
@@ -51,7 +52,12 @@ impl ForeignFunction for LenFunction {
     }
 
     fn accepts(&self, type_: &Type) -> bool {
-        !matches!(type_.resolved().as_ref(), Type::Container(_))
+        match type_.resolved().as_ref() {
+            Type::Container(_) => false,
+            // numbers are as long as their value makes them
+            type_ @ Type::Foreign(_) => !crate::compiler::expr::is_integer_type(type_),
+            _ => true,
+        }
     }
 
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 5cd1dea..c320931 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -76,4 +76,8 @@ impl ForeignType for Utf16 {
     fn copyable(&self) -> bool {
         false
     }
+
+    fn len_gen(&self, value: TokenStream) -> TokenStream {
+        quote! { (#value).encode_utf16().count() as u64 }
+    }
 }
-- 
2.43.0

