From 95879b8900c1a7f8febf9937eba3880157fcdb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 01/40] fix: emit the value of a const where it is referenced

No item was ever generated for a const declaration, so any generated coder referring to one did not compile.
---
 protospec-build/src/compiler/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..62d855e 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -361,9 +361,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let value = emit_expression(&c.value, ref_resolver);
             quote! {
-                #c
+                (#value)
             }
         }
         InputRef(c) => {
-- 
2.43.0


From 7b9849f15eda8cddffcb12bc29bc6decf1776500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 02/40] fix: emit a valid Rust operator for >>>

---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 62d855e..ccc01f5 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -278,7 +278,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     BinaryOp::BitXor => quote! { ^ },
                     BinaryOp::Shr => quote! { >> },
                     BinaryOp::Shl => quote! { << },
-                    BinaryOp::ShrSigned => quote! { >>> },
+                    BinaryOp::ShrSigned => quote! { >> },
                     BinaryOp::Add => quote! { + },
                     BinaryOp::Sub => quote! { - },
                     BinaryOp::Mul => quote! { * },
-- 
2.43.0


From 196d4c3daee8feb1fad75edc9b26a7739ef289d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 03/40] fix: parenthesise emitted casts

A cast below a unary operator bound to the wrong operand: ~(a :> u16) was emitted as ((!a) as u16).
---
 protospec-build/src/compiler/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index ccc01f5..a8cd301 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -315,17 +315,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
-                        (#inner).to_repr() as #target
+                        ((#inner).to_repr() as #target)
                     }
                 }
                 Type::Bitfield(_) => {
                     quote! {
-                        (#inner).0 as #target
+                        ((#inner).0 as #target)
                     }
                 }
                 _ => {
                     quote! {
-                        (#inner) as #target
+                        ((#inner) as #target)
                     }
                 }
             }
-- 
2.43.0


From 6d388d11bcf90d327f5a8083dc9260d5ab1d2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 04/40] fix: index arrays with usize in emitted expressions

---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index a8cd301..9169354 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -335,7 +335,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let index = emit_expression(&c.index, ref_resolver);
 
             quote! {
-                (#array)[#index]
+                (#array)[(#index) as usize]
             }
         }
         EnumAccess(c) => {
-- 
2.43.0


From 137a543c47222b3a81cce8dcaf49bdc2f0e49d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 05/40] fix: generate compilable coders for arrays of bool

---
 protospec-build/src/compiler/decoder.rs | 9 +++++----
 protospec-build/src/compiler/encoder.rs | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..3a70d9e 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -306,11 +306,12 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let data = emit_register(*data);
                 let decoder = match type_ {
+                    PrimitiveType::Bool => quote! { x[0] != 0 },
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
                         ..
-                    }) => quote! { from_le_bytes },
-                    _ => quote! { from_be_bytes },
+                    }) => quote! { #type_::from_le_bytes(x.try_into().unwrap()) },
+                    _ => quote! { #type_::from_be_bytes(x.try_into().unwrap()) },
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
@@ -321,7 +322,7 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
                             unsafe { raw.set_len(t_count * size) };
                             #target.read_exact(&mut raw[..])#async_?;
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #decoder).collect::<Vec<#type_>>()
                         };
                     });
                 } else {
@@ -330,7 +331,7 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #decoder).collect::<Vec<#type_>>()
                         };
                     });
                 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..d8a8fe6 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -267,7 +267,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[if *x { 1u8 } else { 0u8 }])#async_?;
                                 }
                             }
                         }
-- 
2.43.0


From 06515c23d1dc7198dae0745c0926120ccac3300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 06/40] fix: slice the two hex digits of a string escape

The cursor had already advanced to the second digit, so the slice took the wrong byte and panicked on a non-hex one.
---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..84b964c 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -216,7 +216,7 @@ impl Token {
                                 i += 1;
                                 out.push(
                                     u8::from_str_radix(
-                                        std::str::from_utf8(&input[i..i + 2]).unwrap(),
+                                        std::str::from_utf8(&input[i - 1..=i]).unwrap(),
                                         16,
                                     )
                                     .unwrap(),
-- 
2.43.0


From 0ddd3c7f59bdd1fe8a799e0dffb96166a5e6be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 07/40] fix: decode utf16 as big-endian, as it is encoded

---
 protospec-build/src/prelude/utf16.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..e7d78cd 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -41,6 +41,9 @@ impl ForeignType for Utf16 {
                     slice::from_raw_parts_mut(ptr, len)
                 };
                 #source.read_exact(&mut t_borrow2[..])#async_?;
+                for unit in t.iter_mut() {
+                    *unit = u16::from_be(*unit);
+                }
                 String::from_utf16(&t[..])?
             };
         }
-- 
2.43.0


From 6190a391c287d61fa620c00f5667e760fb30e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 08/40] fix: apply a chain of transforms left to right when
 encoding

The last wrapped stream is the first one the data passes through, so encoding applied the chain in the order decoding expects it to be undone.
---
 protospec-build/src/coder/encode/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..a2f375e 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,7 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
-- 
2.43.0


From e9e021df039458fcbd3bda934382e1ed96d6695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 09/40] fix: emit resolved blen fields into the enclosing
 pending buffer

---
 protospec-build/src/coder/encode/container.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..fe42897 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -152,8 +152,9 @@ impl Context {
                         self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
 
                     auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
+                    let target = i
+                        .checked_sub(1)
+                        .and_then(|i| auto_targets.get(i))
                         .map(|(target, _)| Target::Buf(*target))
                         .unwrap_or(buf_target);
                     self.encode_field(target, calculated_register, auto_field, conditional);
-- 
2.43.0


From 00db9bfebb8b74f7d8c98d9005ee08f8fabc6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 10/40] fix: accept optional arguments after required ones

---
 protospec-build/src/semantics/convert/ffi_arguments.rs  | 4 ++--
 protospec-build/src/semantics/convert/type_/type_ref.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 7cfed2f..b45f7b5 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -11,9 +11,9 @@ impl Scope {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
         // optionals MUST be at the end
         if min_arg_count < arguments.len()
-            && type_arguments[type_arguments.len() - min_arg_count..]
+            && type_arguments[..min_arg_count]
                 .iter()
-                .any(|x| !x.optional)
+                .any(|x| x.optional)
         {
             unimplemented!("cannot have ffi transform with required arguments after optional arguments for '{}'", name);
         }
diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..74c94ff 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -13,7 +13,7 @@ impl Scope {
                 .count();
             // optionals MUST be at the end
             if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
+                && target_args[..min_arg_count]
                     .iter()
                     .any(|x| x.default_value.is_some())
             {
-- 
2.43.0


From 51eebc0be8a70fd0bd2f02a5faddacb7230ff9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 11/40] fix: fail to encode a tagged enum when no condition
 matches

Decoding reports an error in that case; encoding silently wrote nothing.
---
 protospec-build/src/compiler/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index d8a8fe6..09bdd34 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -410,7 +410,7 @@ impl EncoderContext {
                     statements.push(quote! {
                         'bb: loop {
                             #interior
-                            break 'bb;
+                            return Err(encode_error("no enum conditions matched").into());
                         }
                     });
                 }
-- 
2.43.0


From 6ac656c3a2ecabdd90001d86ec43598dfbff2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 12/40] fix: honour the length and transforms of a tagged enum
 struct variant when encoding

---
 protospec-build/src/coder/encode/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index fe42897..ba6cb78 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -230,7 +230,7 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        self.encode_field_unconditional(buf_target, source, child, false, false);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
-- 
2.43.0


From 1c272da4aa806d6dc49f993882fd064948f18b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 13/40] fix: parenthesise the trait object of async conditional
 transforms

---
 protospec-build/src/compiler/decoder.rs | 4 ++--
 protospec-build/src/compiler/encoder.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 3a70d9e..6e35eed 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -192,12 +192,12 @@ fn prepare_decode(
                 if is_async {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
+                        let #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
+                            #input as &mut (dyn AsyncBufRead + Unpin + Send + Sync)
                         };
                     })
                 } else {
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 09bdd34..7928cea 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -338,7 +338,7 @@ impl EncoderContext {
                     let prelude = self.prepare_encode(&prelude[..], false);
 
                     let trait_name = if self.is_async {
-                        quote! { dyn AsyncWrite + Send + Sync + Unpin }
+                        quote! { (dyn AsyncWrite + Send + Sync + Unpin) }
                     } else {
                         quote! { dyn Write }
                     };
-- 
2.43.0


From dd21526eb896dfb5ee5ed7fb839363e795860d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 14/40] fix: reject a partial trailing element of an unbounded
 array

The documentation calls this an error; the trailing bytes were dropped.
---
 protospec-build/src/compiler/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 6e35eed..c4e517d 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -331,6 +331,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(decode_error("unexpected end of stream in array element").into());
+                            }
                             raw.chunks_exact(size).map(|x| #decoder).collect::<Vec<#type_>>()
                         };
                     });
@@ -366,6 +369,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(decode_error("unexpected end of stream in array element").into());
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
-- 
2.43.0


From 8b449157ad9aba91e66ebf645b768ce209beaa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 15/40] fix: do not allocate an undecoded length up front

A length read from the input was used as a capacity (and exposed uninitialised memory to the reader), so a short malformed input could panic or abort the decoder.
---
 protospec-build/src/compiler/decoder.rs | 27 ++++++++++++++++---------
 protospec-build/src/prelude/utf16.rs    | 17 ++++++----------
 protospec-build/src/prelude/utf8.rs     | 14 +++++--------
 3 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index c4e517d..6ac2f5a 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -319,9 +319,12 @@ fn prepare_decode(
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let t_len = t_count.checked_mul(size).ok_or_else(|| decode_error("array length overflow"))?;
+                            let mut raw: Vec<u8> = Vec::new();
+                            (&mut *#target).take(t_len as u64).read_to_end(&mut raw)#async_?;
+                            if raw.len() != t_len {
+                                return Err(decode_error("unexpected end of stream in array").into());
+                            }
                             raw.chunks_exact(size).map(|x| #decoder).collect::<Vec<#type_>>()
                         };
                     });
@@ -357,9 +360,12 @@ fn prepare_decode(
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let t_len = t_count.checked_mul(size).ok_or_else(|| decode_error("array length overflow"))?;
+                            let mut raw: Vec<u8> = Vec::new();
+                            (&mut *#target).take(t_len as u64).read_to_end(&mut raw)#async_?;
+                            if raw.len() != t_len {
+                                return Err(decode_error("unexpected end of stream in array").into());
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
@@ -385,7 +391,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
+                        let mut #output = Vec::new();
                         for _ in 0..#stop {
                             #inner
                         }
@@ -509,8 +515,11 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let len = emit_register(*len);
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    let mut big_scratch: Vec<u8> = Vec::new();
+                    (&mut *#target).take(#len as u64).read_to_end(&mut big_scratch)#async_?;
+                    if big_scratch.len() as u64 != #len as u64 {
+                        return Err(decode_error("unexpected end of stream in padding").into());
+                    }
                 });
             }
         }
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index e7d78cd..72a9ccb 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -32,18 +32,13 @@ impl ForeignType for Utf16 {
         quote! {
             let #output_ref = {
                 let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
-                };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
-                for unit in t.iter_mut() {
-                    *unit = u16::from_be(*unit);
+                let t_len = t_count.checked_mul(2).ok_or_else(|| decode_error("utf16 length overflow"))?;
+                let mut raw: Vec<u8> = Vec::new();
+                (&mut *#source).take(t_len as u64).read_to_end(&mut raw)#async_?;
+                if raw.len() != t_len {
+                    return Err(decode_error("unexpected end of stream in utf16").into());
                 }
+                let t: Vec<u16> = raw.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
                 String::from_utf16(&t[..])?
             };
         }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..32aeda8 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -32,15 +32,11 @@ impl ForeignType for Utf8 {
             quote! {
                 let #output_ref = {
                     let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
+                    let mut t: Vec<u8> = Vec::new();
+                    (&mut *#source).take(t_count as u64).read_to_end(&mut t)#async_?;
+                    if t.len() != t_count {
+                        return Err(decode_error("unexpected end of stream in utf8").into());
+                    }
                     String::from_utf8(t)?
                 };
             }
-- 
2.43.0


From 943339a343922a5cdbd92ffe7b1cbbc5096bb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 16/40] fix: bound a varint by its bit width

The bound was computed from the byte size, so the larger values that encoding produces could not be decoded.
---
 protospec-build/src/prelude/var.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..9401582 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,7 +71,7 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
+        let end = (self.scalar_type.size() as f64 * 8.0 / 7.0).ceil() as usize;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
@@ -83,7 +83,7 @@ impl ForeignType for VarInt {
                     #source.read_exact(&mut buf[..])#async_?;
                     output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
                     i += 1;
-                    if i > #end {
+                    if i >= #end {
                         break;
                     }
                 }
-- 
2.43.0


From 191c3ae348b091035d7af3888dd0c7ab40ac7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 17/40] fix: report a mismatched array length as an encode
 error

It panicked for primitive elements; for others a short array panicked and a long one was silently truncated.
---
 protospec-build/src/coder/encode/array.rs       |  1 +
 protospec-build/src/coder/encode/instruction.rs |  3 +++
 protospec-build/src/compiler/encoder.rs         | 12 ++++++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..6ba6257 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,6 +89,7 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
+            self.instructions.push(Instruction::CheckLen(source, len));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..4f6aa99 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -56,6 +56,8 @@ pub enum Instruction {
 
     /// register representing iterator from -> term, term, inner
     Loop(usize, usize, Vec<Instruction>),
+    /// source, expected length
+    CheckLen(usize, usize),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
     /// register
@@ -174,6 +176,7 @@ impl fmt::Display for Instruction {
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
+            Instruction::CheckLen(source, len) => write!(f, "CheckLen({}, {})", source, len),
             Instruction::Drop(register) => write!(f, "Drop({})", register),
             Instruction::NullCheck(original, checked, is_copyable, message) => write!(
                 f,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 7928cea..7d57809 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -115,6 +115,15 @@ impl EncoderContext {
                         let #len = #source.len() #cast;
                     });
                 }
+                Instruction::CheckLen(source, len) => {
+                    let source = emit_register(*source);
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        if #source.len() != #len as usize {
+                            return Err(encode_error("array length mismatch").into());
+                        }
+                    });
+                }
                 Instruction::NullCheck(target, destination, is_copyable, message) => {
                     let target = emit_register(*target);
                     let destination = emit_register(*destination);
@@ -303,8 +312,7 @@ impl EncoderContext {
                             {
                                 let t_count = #len as usize;
                                 if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                    return Err(encode_error("array length mismatch").into());
                                 }
                                 #writing
                             }
-- 
2.43.0


From 80020a4ba3cb41ea20f7e1f5811acb1e5cd42898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 18/40] fix: keep the sync io traits out of generated async
 coders

Cursor implements both families, so the calls on it in decode_async were ambiguous and did not compile.
---
 protospec-build/src/compiler/decoder.rs | 2 +-
 protospec-build/src/compiler/mod.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 6ac2f5a..7c97d5b 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -29,7 +29,7 @@ fn prepare_decode(
             })
         } else {
             statements.push(quote! {
-                use std::io::Read;
+                use std::io::{ Read, BufRead };
             })
         }
     }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..83314c5 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -135,7 +135,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
     };
 
     components.push(quote! {
-        use std::io::{Read, BufRead, Cursor};
+        use std::io::Cursor;
         use std::slice;
         use std::mem;
         use std::convert::TryInto;
@@ -255,7 +255,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
 
     quote! {
         impl #container_ident {
-            pub fn decode_sync<R: Read + BufRead>(reader: &mut R #arguments) -> Result<Self> {
+            pub fn decode_sync<R: std::io::Read + std::io::BufRead>(reader: &mut R #arguments) -> Result<Self> {
                 #redefaults
                 #decode_sync
             }
-- 
2.43.0


From d959724c99e17d67ff8ec39ed84e2a126c07855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 19/40] fix: look ahead for an array terminator across reads

The terminator was only recognised when a single fill_buf returned all of it: otherwise decoding spun forever, at the end of the stream or at a read boundary.
---
 protospec-build/src/compiler/decoder.rs | 27 ++++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 7c97d5b..672b105 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -397,22 +397,29 @@ fn prepare_decode(
                         }
                     });
                 } else if let Some(terminator) = terminator {
+                    let buf_trait = if is_async {
+                        quote! { (dyn AsyncBufRead + Unpin + Send + Sync) }
+                    } else {
+                        quote! { dyn BufRead }
+                    };
                     statements.push(quote! {
                         let mut #output = Vec::new();
+                        let mut t_ahead: Vec<u8> = Vec::new();
                         loop {
-                            let buf = #target.fill_buf()#async_?;
-                            if buf.len() == 0 {
+                            (&mut *#target).take((#terminator.len() - t_ahead.len()) as u64).read_to_end(&mut t_ahead)#async_?;
+                            if t_ahead.is_empty() || &t_ahead[..] == &#terminator[..] {
                                 break;
                             }
-                            if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
-                            }
-                            if &buf[..#terminator.len()] == #terminator {
-                                #target.consume(#terminator.len());
-                                break;
+                            let mut t_source = Cursor::new(t_ahead).chain(&mut *#target);
+                            {
+                                let mut t_source: &mut #buf_trait = &mut t_source;
+                                let #target = &mut t_source;
+                                #inner
                             }
-                            #inner
+                            let (t_cursor, _) = t_source.into_inner();
+                            let t_position = t_cursor.position() as usize;
+                            t_ahead = t_cursor.into_inner();
+                            t_ahead.drain(..t_position);
                         }
                     });
                 } else {
-- 
2.43.0


From 18ab5d97ea2f95268a5404e04133bc10aa0d2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 20/40] fix: lend the underlying stream to a transform

A transform that takes its stream by value (gzip, base64) moved it, so no field could follow a transformed one.
---
 protospec-build/src/compiler/decoder.rs |  6 ++++--
 protospec-build/src/compiler/encoder.rs | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 672b105..8e9a2f6 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -165,7 +165,9 @@ fn prepare_decode(
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
-                let transformed = transformer.inner.decoding_gen(input, args, is_async);
+                let transformed = transformer
+                    .inner
+                    .decoding_gen(quote! { (&mut *#input) }, args, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
                     let #new_stream_value = &mut #new_stream_value;
@@ -185,7 +187,7 @@ fn prepare_decode(
                 let input = emit_target(stream);
                 let transformed = transformer
                     .inner
-                    .decoding_gen(input.clone(), args, is_async);
+                    .decoding_gen(quote! { (&mut *#input) }, args, is_async);
                 let prelude = prepare_decode(options, context, &prelude[..], is_async, false);
 
                 //todo: would be nicer to use generics here instead of trait object
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 7d57809..8ccf092 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -4,6 +4,20 @@ use super::*;
 use crate::coder::encode::*;
 use crate::{coder::*, map_async, Endian, EndianScalarType, ScalarType};
 
+/// a mutable borrow of `target`, for wrapping in a transform
+fn emit_target_borrow(target: &Target) -> TokenStream {
+    match target {
+        Target::Stream(x) => {
+            let stream = emit_register(*x);
+            quote! { (&mut #stream) }
+        }
+        target => {
+            let target = emit_target(target);
+            quote! { (&mut *#target) }
+        }
+    }
+}
+
 fn emit_target(target: &Target) -> TokenStream {
     match target {
         Target::Direct => quote! { writer },
@@ -162,7 +176,7 @@ impl EncoderContext {
                 Instruction::WrapStream(stream, new_stream, transformer, args) => {
                     let new_stream_value = emit_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_target_borrow(stream);
                     let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
                     statements.push(quote! {
                         let mut #new_stream_value = #transformed;
@@ -342,7 +356,7 @@ impl EncoderContext {
                     let transformed =
                         transformer
                             .inner
-                            .encoding_gen(input.clone(), args, self.is_async);
+                            .encoding_gen(emit_target_borrow(stream), args, self.is_async);
                     let prelude = self.prepare_encode(&prelude[..], false);
 
                     let trait_name = if self.is_async {
@@ -354,7 +368,7 @@ impl EncoderContext {
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut #trait_name = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
-- 
2.43.0


From 054f5c406327d04baf8c0b2d2dc1abd598ac19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 21/40] fix: refer to a bitfield flag by the name it is
 generated under

---
 protospec-build/src/compiler/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 9169354..03bb38f 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -340,7 +340,10 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         EnumAccess(c) => {
             let enum_name = emit_ident(&c.enum_field.name);
-            let enum_variant_name = emit_ident(&c.variant.name);
+            let enum_variant_name = match &*c.enum_field.type_.borrow() {
+                Type::Bitfield(_) => emit_ident(&c.variant.name.to_snake().to_uppercase()),
+                _ => emit_ident(&c.variant.name),
+            };
             quote! {
                 #enum_name::#enum_variant_name
             }
-- 
2.43.0


From 7bf27ac5e817ffaa507a7669852870ce189b591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 22/40] fix: derive Default for an enum whose first variant is
 the default one

---
 protospec-build/src/compiler/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 83314c5..a0fca2a 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -532,12 +532,16 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let format_string = format!("illegal enum value '{{}}' for enum '{}'", name);
 
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
-        let (default_field, _) = item.items.first().expect("missing enum entry for default");
+        let (default_field, value) = item.items.first().expect("missing enum entry for default");
         let default_field = format_ident!("{}", default_field);
+        let default_value = match value {
+            EnumValue::Value(_) => quote! {},
+            EnumValue::Default => quote! { (Default::default()) },
+        };
         quote! {
             impl Default for #name_ident {
                 fn default() -> Self {
-                    Self::#default_field
+                    Self::#default_field #default_value
                 }
             }
         }
-- 
2.43.0


From 1aa9775917f6bc9b85085bade2a13796ea923fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 23/40] fix: let a conditional transform follow another
 transform when encoding

---
 protospec-build/src/compiler/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 8ccf092..516a304 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -352,11 +352,11 @@ impl EncoderContext {
                     let new_stream_value = emit_register(*new_stream);
                     let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_target_borrow(stream);
                     let transformed =
                         transformer
                             .inner
-                            .encoding_gen(emit_target_borrow(stream), args, self.is_async);
+                            .encoding_gen(input.clone(), args, self.is_async);
                     let prelude = self.prepare_encode(&prelude[..], false);
 
                     let trait_name = if self.is_async {
-- 
2.43.0


From 0222aaaeb22cc50f61ee878bf4938a5ba6da169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 24/40] fix: code arrays of named types as elements of that
 type

A declared alias is generated as a distinct type, but an array of it was decoded and encoded as an array of what it stands for.
---
 protospec-build/src/asg/types/mod.rs      | 24 ++++++++++++++++++++++-
 protospec-build/src/coder/decode/array.rs |  2 +-
 protospec-build/src/coder/encode/array.rs |  2 +-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..55c208a 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -152,8 +152,30 @@ impl Type {
         }
     }
 
+    /// the type of an array element as far as its coding goes: references to enums and bitfields
+    /// are coded by their representation, other references by the coder of their target.
+    pub fn array_element(&self) -> Cow<'_, Type> {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                type_ @ Type::Enum(_) | type_ @ Type::Bitfield(_)
+                    if x.target.transforms.borrow().is_empty() =>
+                {
+                    Cow::Owned(type_.clone())
+                }
+                _ => Cow::Borrowed(self),
+            },
+            x => Cow::Borrowed(x),
+        }
+    }
+
     pub fn copyable(&self) -> bool {
-        match &*self.resolved() {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                type_ @ Type::Enum(_) | type_ @ Type::Bitfield(_) | type_ @ Type::Foreign(_) => {
+                    type_.copyable()
+                }
+                _ => false,
+            },
             Type::Enum(_) => true,
             Type::Bitfield(_) => true,
             Type::Scalar(_) => true,
diff --git a/protospec-build/src/coder/decode/array.rs b/protospec-build/src/coder/decode/array.rs
index 789506d..d72ec3b 100644
--- a/protospec-build/src/coder/decode/array.rs
+++ b/protospec-build/src/coder/decode/array.rs
@@ -24,7 +24,7 @@ impl Context {
 
         let output = self.alloc_register();
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.array_element();
             match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => (),
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 6ba6257..006b76e 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -37,7 +37,7 @@ impl Context {
         };
 
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.array_element();
             let primitive_type = match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => None,
-- 
2.43.0


From 0d9d869d54f6c0fc28cea8aee1cf05e95c0ed587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 25/40] fix: evaluate the arguments of pad as a unit, and
 accept a pad of zero

---
 protospec-build/src/prelude/pad.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/prelude/pad.rs b/protospec-build/src/prelude/pad.rs
index 1b45ce7..a8a2d11 100644
--- a/protospec-build/src/prelude/pad.rs
+++ b/protospec-build/src/prelude/pad.rs
@@ -26,10 +26,14 @@ impl ForeignFunction for PadFunction {
         let pad = &arguments[0].value;
         let base = &arguments[1].value;
         return quote! {
-            if #base % #pad == 0 {
-                0
-            } else {
-                (#pad - (#base % #pad))
+            {
+                let t_pad: u64 = #pad;
+                let t_base: u64 = #base;
+                if t_pad == 0 || t_base % t_pad == 0 {
+                    0u64
+                } else {
+                    t_pad - (t_base % t_pad)
+                }
             }
         };
     }
-- 
2.43.0


From 0b5612ac677017e032bd7583e92f268f0e0b72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 26/40] fix: pass a transform stream to a referenced type by
 reference when encoding

---
 protospec-build/src/compiler/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 516a304..770714b 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -219,7 +219,7 @@ impl EncoderContext {
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
-                    let target = emit_target(target);
+                    let target = emit_target_borrow(target);
                     let source = emit_register(*source);
                     if self.is_async {
                         statements.push(quote! {
-- 
2.43.0


From 893b95e74ac7a3c4c3506edac1b96f25d2fda5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 27/40] fix: report an import cycle instead of recursing
 forever

---
 protospec-build/src/semantics/convert/program/mod.rs     | 2 +-
 protospec-build/src/semantics/convert/program/resolve.rs | 7 ++++++-
 protospec-build/src/semantics/error.rs                   | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..8e0b105 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -17,7 +17,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![])?;
         Program::from_ast_imported(ast, resolver, &cached_imports)
     }
 
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..91d2ad5 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -5,6 +5,7 @@ impl Program {
         ast: &ast::Program,
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
+        resolving: &mut Vec<String>,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
@@ -12,6 +13,8 @@ impl Program {
                     let content = String::from_utf8_lossy(&import.from.content[..]).into_owned();
                     let normalized = resolver.normalize_import(&content[..])?;
                     if let Some(_cached) = cache.get(&normalized) {
+                    } else if resolving.contains(&normalized) {
+                        return Err(AsgError::ImportCycle(content, import.from.span));
                     } else {
                         let loaded = resolver.resolve_import(&normalized)?;
                         if let Some(loaded) = loaded {
@@ -21,7 +24,9 @@ impl Program {
                                     return Err(AsgError::ImportParse(content, import.from.span, e))
                                 }
                             };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
+                            resolving.push(normalized.clone());
+                            Program::from_ast_imports(&parsed, resolver, cache, resolving)?;
+                            resolving.pop();
                             let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
                             cache.insert(normalized, asg);
                         } else {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 92b5aa2..e9f3b9e 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -11,6 +11,8 @@ pub enum AsgError {
     FfiMissing(String, Span),
     #[error("unresolved import '{0}' @ {1}")]
     ImportMissing(String, Span),
+    #[error("cyclic import '{0}' @ {1}")]
+    ImportCycle(String, Span),
     #[error("unresolved import item '{0}' does not exist in module {1} @ {2}")]
     ImportUnresolved(String, String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
-- 
2.43.0


From 5d869fa6fe5da2f75ada347f7d6f5341bb80c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 28/40] fix: pass optional arguments to referenced types as
 options

A reference to a type with defaulted arguments generated a call that did not compile.
---
 .../src/coder/decode/instruction.rs           |  2 +-
 protospec-build/src/coder/decode/mod.rs       |  2 +-
 .../src/coder/encode/instruction.rs           |  6 ++----
 protospec-build/src/coder/encode/var_ref.rs   |  1 +
 protospec-build/src/coder/mod.rs              | 21 +++++++++++++++++++
 protospec-build/src/compiler/decoder.rs       |  2 +-
 protospec-build/src/compiler/encoder.rs       |  2 +-
 protospec-build/src/compiler/mod.rs           | 11 ++++++++++
 8 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..1dce46c 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     ), // condition, prelude, stream, new stream, transformer, arguments
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
-    DecodeRef(Target, usize, String, Vec<usize>),
+    DecodeRef(Target, usize, String, Vec<RefArgument>),
     DecodeRepr(String, PrimitiveType, usize, Target),
     DecodePrimitive(Target, usize, PrimitiveType),
     DecodePrimitiveArray(Target, usize, PrimitiveType, Option<usize>),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 0e5369d..5e0ba81 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -153,7 +153,7 @@ impl Context {
                         source,
                         output,
                         r.target.name.clone(),
-                        args,
+                        RefArgument::new_list(&r.target.arguments.borrow()[..], &args[..]),
                     ));
                 }
                 output
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 4f6aa99..8716a25 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     /// dest, source, type, arguments
     EncodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     /// dest, source, arguments
-    EncodeRef(Target, usize, Vec<usize>),
+    EncodeRef(Target, usize, Vec<RefArgument>),
     /// rep type, dest, source
     EncodeEnum(Target, usize, EndianScalarType),
     /// dest, source
@@ -142,9 +142,7 @@ impl fmt::Display for Instruction {
                 write!(f, ")")
             }
             Instruction::EncodeRef(dest, source, arguments) => {
-                write!(f, "EncodeRef({:?}, {}, ", dest, source)?;
-                write_arguments(f, &arguments[..])?;
-                write!(f, ")")
+                write!(f, "EncodeRef({:?}, {}, {:?})", dest, source, arguments)
             }
             Instruction::EncodeEnum(dest, source, type_) => {
                 write!(f, "EncodeEnum({:?}, {}, {})", dest, source, type_)
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index 45ad006..245a64b 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -22,6 +22,7 @@ impl Context {
                 self.instructions.push(Instruction::Eval(r, arg.clone()));
                 args.push(r);
             }
+            let args = RefArgument::new_list(&type_.target.arguments.borrow()[..], &args[..]);
             self.instructions
                 .push(Instruction::EncodeRef(target, source, args));
         }
diff --git a/protospec-build/src/coder/mod.rs b/protospec-build/src/coder/mod.rs
index c087b01..d5d15f9 100644
--- a/protospec-build/src/coder/mod.rs
+++ b/protospec-build/src/coder/mod.rs
@@ -29,6 +29,27 @@ impl Target {
     }
 }
 
+/// an argument of a referenced type
+#[derive(Clone, Copy, Debug)]
+pub enum RefArgument {
+    Required(usize),
+    Optional(Option<usize>),
+}
+
+impl RefArgument {
+    /// pairs the registers of the arguments given with the arguments declared
+    pub fn new_list(declared: &[crate::asg::TypeArgument], given: &[usize]) -> Vec<RefArgument> {
+        declared
+            .iter()
+            .enumerate()
+            .map(|(i, argument)| match &argument.default_value {
+                Some(_) => RefArgument::Optional(given.get(i).copied()),
+                None => RefArgument::Required(given[i]),
+            })
+            .collect()
+    }
+}
+
 #[derive(Clone, Copy, Debug)]
 pub enum PrimitiveType {
     Bool,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 8e9a2f6..e125613 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -233,7 +233,7 @@ fn prepare_decode(
             Instruction::DecodeRef(target, source, class, args) => {
                 let mut out_arguments = vec![];
                 for argument in args {
-                    let value = emit_register(*argument);
+                    let value = emit_ref_argument(argument);
                     out_arguments.push(quote! {, #value});
                 }
                 let out_arguments = flatten(out_arguments);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 770714b..c0c60e8 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -215,7 +215,7 @@ impl EncoderContext {
                 Instruction::EncodeRef(target, source, args) => {
                     let mut out_arguments = vec![];
                     for argument in args {
-                        let value = emit_register(*argument);
+                        let value = emit_ref_argument(argument);
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index a0fca2a..1d69b52 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -284,6 +284,17 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+fn emit_ref_argument(argument: &coder::RefArgument) -> TokenStream {
+    match argument {
+        coder::RefArgument::Required(x) => emit_register(*x),
+        coder::RefArgument::Optional(Some(x)) => {
+            let x = emit_register(*x);
+            quote! { Some(#x) }
+        }
+        coder::RefArgument::Optional(None) => quote! { None },
+    }
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
-- 
2.43.0


From 5a6ce53c7a1c039ae8ddeecebaf2e668580235c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 29/40] fix: do not allocate a declared container length up
 front when encoding

---
 protospec-build/src/compiler/encoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index c0c60e8..d119612 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -90,12 +90,11 @@ impl EncoderContext {
                         let #target = #source;
                     });
                 }
-                Instruction::AllocBuf(buf, len) => {
+                Instruction::AllocBuf(buf, _len) => {
                     let buf = emit_register(*buf);
-                    let len = emit_register(*len);
                     statements.push(quote! {
                         //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
+                        let mut #buf: Vec<u8> = Vec::new();
                     });
                 }
                 Instruction::AllocDynBuf(buf) => {
-- 
2.43.0


From 28bb23712af3d39a5a8f9d654107bb81e85afcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 30/40] fix: f64 is assignable to f64, and f32 widens to it by
 a cast

---
 protospec-build/src/asg/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 55c208a..5b03e33 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -103,7 +103,7 @@ impl Type {
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
-            (Type::F64, Type::F32) => true,
+            (Type::F64, Type::F64) => true,
             (Type::Bool, Type::Bool) => true,
             (_, _) => false,
         }
@@ -132,6 +132,7 @@ impl Type {
                 true
             }
             (Type::Scalar(s1), Type::Scalar(s2)) => s1.scalar.can_implicit_cast_to(&s2.scalar),
+            (Type::F32, Type::F64) => true,
             (_, _) => false,
         }
     }
-- 
2.43.0


From 7c04b28b2ecc857cc2516be8cb74f1cb7422a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 31/40] fix: evaluate operators on constant booleans

---
 protospec-build/src/compiler/expr.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 03bb38f..bbffa9c 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -22,6 +22,8 @@ impl PartialOrd for ConstValue {
             (ConstValue::Int(i1), ConstValue::Int(i2)) => i1.partial_cmp(i2),
             (ConstValue::F32(i1), ConstValue::F32(i2)) => i1.partial_cmp(i2),
             (ConstValue::F64(i1), ConstValue::F64(i2)) => i1.partial_cmp(i2),
+            (ConstValue::Bool(i1), ConstValue::Bool(i2)) => i1.partial_cmp(i2),
+            (ConstValue::String(i1), ConstValue::String(i2)) => i1.partial_cmp(i2),
             _ => None,
         }
     }
@@ -145,6 +147,7 @@ impl ConstValue {
             (ConstValue::F64(i1), Type::F32) => Some(ConstValue::F32(*i1 as f32)),
             (ConstValue::F32(i1), Type::F64) => Some(ConstValue::F64(*i1 as f64)),
             (ConstValue::F64(i1), Type::F64) => Some(ConstValue::F64(*i1 as f64)),
+            (ConstValue::Bool(i1), Type::Bool) => Some(ConstValue::Bool(*i1)),
             //todo: int <-> float casting
             _ => None,
         }
@@ -171,6 +174,14 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
         Binary(c) => {
             let left = eval_const_expression(&c.left)?;
             let right = eval_const_expression(&c.right)?;
+            if let (ConstValue::Bool(left), ConstValue::Bool(right)) = (&left, &right) {
+                match c.op {
+                    BinaryOp::BitOr => return Some(ConstValue::Bool(left | right)),
+                    BinaryOp::BitAnd => return Some(ConstValue::Bool(left & right)),
+                    BinaryOp::BitXor => return Some(ConstValue::Bool(left ^ right)),
+                    _ => (),
+                }
+            }
             Some(match c.op {
                 BinaryOp::Lt => ConstValue::Bool(left < right),
                 BinaryOp::Gt => ConstValue::Bool(left > right),
-- 
2.43.0


From a0a3da1944117efcaf91f39051b89b70d74f9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 32/40] fix: generate code for several blen calls in a fixed
 order

---
 protospec-build/src/coder/encode/container.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index ba6cb78..f001406 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::{Cell, RefCell},
-    collections::{HashMap, HashSet},
+    collections::{BTreeSet, HashMap},
 };
 
 use crate::Span;
@@ -342,12 +342,12 @@ impl Expression {
     }
 
     fn blen_calls(&self) -> Vec<String> {
-        let mut out = HashSet::new();
+        let mut out = BTreeSet::new();
         self.extract_magic_blen_calls(&mut out);
         out.into_iter().collect()
     }
 
-    fn extract_magic_blen_calls(&self, output: &mut HashSet<String>) {
+    fn extract_magic_blen_calls(&self, output: &mut BTreeSet<String>) {
         match self {
             Expression::Binary(expr) => {
                 expr.left.extract_magic_blen_calls(output);
-- 
2.43.0


From 92768662c3ac74d4521bcc39ea8c59ff086ab5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 33/40] fix: conditional fields inside conditional containers
 decode to one option

---
 protospec-build/src/coder/decode/field.rs       | 10 ++++++++--
 protospec-build/src/coder/decode/instruction.rs |  2 +-
 protospec-build/src/coder/decode/mod.rs         |  8 +++++++-
 protospec-build/src/compiler/decoder.rs         | 10 +++++++---
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 865df93..fe2df29 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -59,11 +59,17 @@ impl Context {
         if let Some(field_condition) = field_condition {
             let drained = self.instructions.drain(start..).collect();
             if emitted.is_empty() {
-                panic!("no emitted values from conditional");
+                self.instructions
+                    .push(Instruction::ConditionalPredicate(field_condition, drained));
+                return emitted;
             }
+            let interior = emitted
+                .iter()
+                .map(|register| (*register, self.optional_registers.insert(*register)))
+                .collect();
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
-                emitted.clone(),
+                interior,
                 field_condition,
                 drained,
             ));
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 1dce46c..175c6c1 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -57,7 +57,7 @@ pub enum Instruction {
         Vec<Instruction>,
     ),
     LoopOutput(usize, usize), // output handle, item
-    Conditional(Vec<usize>, Vec<usize>, usize, Vec<Instruction>), // target, interior_register, condition, if_true
+    Conditional(Vec<usize>, Vec<(usize, bool)>, usize, Vec<Instruction>), // target, (interior_register, needs wrapping in an option), condition, if_true
     ConditionalPredicate(usize, Vec<Instruction>), // target, interior_register, condition, if_true
     /// returns from decoder early
     Return(usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 5e0ba81..a612e79 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,6 +1,9 @@
 use super::*;
 use crate::asg::*;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 
 mod instruction;
 pub use instruction::*;
@@ -20,6 +23,8 @@ pub struct Context {
     pub field_register_map: HashMap<String, usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
+    /// registers already holding an `Option` from an interior conditional
+    pub optional_registers: HashSet<usize>,
 }
 
 impl Context {
@@ -37,6 +42,7 @@ impl Context {
             instructions: vec![],
             field_register_map: HashMap::new(),
             register_count: 0,
+            optional_registers: HashSet::new(),
         }
     }
 
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index e125613..61c8fe4 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -466,10 +466,14 @@ fn prepare_decode(
                 let interiors = interior
                     .iter()
                     .copied()
-                    .map(|r| {
+                    .map(|(r, wrap)| {
                         let r = emit_register(r);
-                        quote! {
-                            Some(#r)
+                        if wrap {
+                            quote! {
+                                Some(#r)
+                            }
+                        } else {
+                            r
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From 3ff1bfd2d337fff9a8fa14f00049d3fd7fefdf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 34/40] fix: copy plain values out of tagged enum alternatives
 when encoding

---
 protospec-build/src/coder/encode/container.rs |  1 +
 .../src/coder/encode/instruction.rs           | 20 +++++++++++++++----
 protospec-build/src/compiler/encoder.rs       | 16 +++++++++++++--
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index f001406..f26e60f 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -239,6 +239,7 @@ impl Context {
                             name.clone(),
                             source,
                             unwrapped,
+                            subtype.copyable(),
                             "mismatch betweeen condition and enum discriminant".to_string(),
                         ));
 
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 8716a25..c1b89fb 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -67,7 +67,7 @@ pub enum Instruction {
     /// condition, if_true, if_false
     Conditional(usize, Vec<Instruction>, Vec<Instruction>),
     /// enum name, discriminant, original, checked, message
-    UnwrapEnum(String, String, usize, usize, String),
+    UnwrapEnum(String, String, usize, usize, bool, String), // enum name, discriminant, original, checked, do_copy, message
     /// enum name, discriminant, original, checked: (enumstruct field name, checked, do_copy), message
     UnwrapEnumStruct(String, String, usize, Vec<(String, usize, bool)>, String),
     /// instructions
@@ -192,10 +192,22 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => write!(
+            Instruction::UnwrapEnum(
+                enum_name,
+                discriminant,
+                original,
+                checked,
+                do_copy,
+                message,
+            ) => write!(
                 f,
-                "UnwrapEnum('{}', '{}', {}, {}, '{}')",
-                enum_name, discriminant, original, checked, message
+                "UnwrapEnum('{}', '{}', {}, {}{}, '{}')",
+                enum_name,
+                discriminant,
+                original,
+                if *do_copy { "*" } else { "" },
+                checked,
+                message
             ),
             Instruction::UnwrapEnumStruct(enum_name, discriminant, original, checked, message) => {
                 write!(
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index d119612..fdf867a 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -376,15 +376,27 @@ impl EncoderContext {
                         };
                     })
                 }
-                Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => {
+                Instruction::UnwrapEnum(
+                    enum_name,
+                    discriminant,
+                    original,
+                    checked,
+                    do_copy,
+                    message,
+                ) => {
                     let enum_name = emit_ident(enum_name);
                     let discriminant = emit_ident(discriminant);
                     let original = emit_register(*original);
                     let checked = emit_register(*checked);
+                    let copy = if *do_copy {
+                        quote! { * }
+                    } else {
+                        quote! {}
+                    };
 
                     statements.push(quote! {
                         let #checked = if let #enum_name::#discriminant(#checked) = &#original {
-                            #checked
+                            #copy #checked
                         } else {
                             return Err(encode_error(#message).into())
                         };
-- 
2.43.0


From 65e60654af5d3025e2843e4a7002ccd25c62c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 35/40] fix: a transform that does not apply does not end the
 enclosing stream

---
 protospec-build/src/coder/encode/field.rs       |  7 ++++---
 protospec-build/src/coder/encode/instruction.rs |  7 +++++--
 protospec-build/src/compiler/encoder.rs         | 10 ++++++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index a2f375e..6db088d 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -86,7 +86,7 @@ impl Context {
             }
             let new_stream = self.alloc_register();
             let new_owned_stream = condition.map(|_| self.alloc_register());
-            new_streams.push((new_stream, new_owned_stream));
+            new_streams.push((new_stream, new_owned_stream, condition));
 
             if let Some(condition) = condition {
                 let drained = self.instructions.drain(argument_start..).collect();
@@ -147,8 +147,9 @@ impl Context {
             type_ => self.encode_complex_type(field, type_, target, source, total_conditional),
         }
 
-        for (stream, owned_stream) in new_streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
+        for (stream, owned_stream, condition) in new_streams.iter().rev() {
+            self.instructions
+                .push(Instruction::EndStream(*stream, *condition));
             if let Some(owned_stream) = owned_stream {
                 self.instructions.push(Instruction::Drop(*owned_stream));
             }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index c1b89fb..051b95e 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -32,7 +32,7 @@ pub enum Instruction {
         Vec<usize>,
     ),
     /// stream
-    EndStream(usize),
+    EndStream(usize, Option<usize>), // stream, condition of the transform
 
     /// dest, buf handle
     EmitBuf(Target, usize),
@@ -128,7 +128,10 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::EndStream(stream) => write!(f, "EndStream({})", stream),
+            Instruction::EndStream(stream, None) => write!(f, "EndStream({})", stream),
+            Instruction::EndStream(stream, Some(condition)) => {
+                write!(f, "EndStream({}, {})", stream, condition)
+            }
             Instruction::EmitBuf(dest, buf_handle) => {
                 write!(f, "EmitBuf({:?}, {})", dest, buf_handle)
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index fdf867a..453fe0d 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -197,10 +197,16 @@ impl EncoderContext {
                         self.is_async,
                     ));
                 }
-                Instruction::EndStream(stream) => {
+                Instruction::EndStream(stream, condition) => {
                     let stream = emit_register(*stream);
+                    let mut flush = quote! { #stream.flush()#async_?; };
+                    if let Some(condition) = condition {
+                        // a transform that does not apply leaves us the enclosing stream, which is not ours to end
+                        let condition = emit_register(*condition);
+                        flush = quote! { if #condition { #flush } };
+                    }
                     statements.push(quote! {
-                        #stream.flush()#async_?;
+                        #flush
                         drop(#stream);
                     });
                 }
-- 
2.43.0


From ee0edf453b29379956bc509d3fcefee7856dcdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 36/40] fix: token columns and lines (start offset, comments
 and strings spanning lines)

---
 protospec-build/src/tokenizer.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 84b964c..0aac564 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -540,32 +540,31 @@ impl fmt::Debug for SpannedToken {
 pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>> {
     let mut input = input.as_bytes();
     let mut tokens = vec![];
-    let mut index = 064;
+    let mut index = 0u64;
     let mut line_no = 1u64;
     let mut line_start = 0u64;
     while input.len() > 0 {
         match Token::gobble(input) {
             (output, Some(token)) => {
+                let consumed = &input[..input.len() - output.len()];
                 let start_line = line_no;
-                match &token {
-                    Token::CommentLine(_) => {
+                let col_start = index - line_start + 1;
+                for byte in consumed {
+                    index += 1;
+                    if *byte == b'\n' {
                         line_no += 1;
+                        line_start = index;
                     }
-                    Token::CommentBlock(s) => {
-                        line_no += s.chars().filter(|x| *x == '\n').count() as u64;
-                    }
-                    _ => (),
                 }
                 tokens.push(SpannedToken {
                     token,
                     span: Span {
                         line_start: start_line,
                         line_stop: line_no,
-                        col_start: index - line_start + 1,
-                        col_stop: index - line_start + (input.len() - output.len()) as u64 + 1,
+                        col_start,
+                        col_stop: index - line_start + 1,
                     },
                 });
-                index += (input.len() - output.len()) as u64;
                 input = output;
             }
             (output, None) => {
-- 
2.43.0


From a0b4e2ed5c023ca2873cc1484b8ba5d1d9303a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 37/40] fix: find recursive types whose fields share names

---
 protospec-build/src/asg/types/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 5b03e33..d4d960e 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -195,9 +195,7 @@ impl Type {
             }
             Type::Container(interior) => {
                 for (_, field) in &interior.items {
-                    if target.insert(field.name.clone()) {
-                        field.get_indirect_contained_fields(target);
-                    }
+                    field.get_indirect_contained_fields(target);
                 }
             }
             Type::Ref(call) => {
-- 
2.43.0


From fc067414ed73adcae22a753b97342393dbb07108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 38/40] fix: generate what imported types depend on, and
 imported types under an alias

---
 protospec-build/src/asg/program.rs            | 38 +++++++++++++++++++
 protospec-build/src/asg/types/mod.rs          | 13 +++++++
 protospec-build/src/compiler/mod.rs           |  8 ++++
 .../src/semantics/convert/program/mod.rs      |  4 +-
 4 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..e12dcb0 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -9,6 +9,44 @@ pub struct Program {
 }
 
 impl Program {
+    /// Adds the types that imported types depend on, and imported types under their own name when
+    /// they are known by an alias, as code is generated for each type under its own name.
+    pub fn include_referenced_types(&mut self) -> AsgResult<()> {
+        let mut pending: Vec<Arc<Field>> = self.types.values().cloned().collect();
+        let mut i = 0;
+        while i < pending.len() {
+            let field = pending[i].clone();
+            i += 1;
+            if matches!(&*field.type_.borrow(), Type::Foreign(_)) {
+                continue;
+            }
+            match self.types.get(&field.name) {
+                Some(defined) if Arc::ptr_eq(defined, &field) => (),
+                Some(defined) => {
+                    return Err(AsgError::TypeRedefinition(
+                        field.name.clone(),
+                        field.span,
+                        defined.span,
+                    ))
+                }
+                None => {
+                    self.types.insert(field.name.clone(), field.clone());
+                }
+            }
+            let mut referenced = vec![];
+            field.type_.borrow().get_referenced_types(&mut referenced);
+            for argument in field.arguments.borrow().iter() {
+                argument.type_.get_referenced_types(&mut referenced);
+            }
+            for target in referenced {
+                if !pending.iter().any(|x| Arc::ptr_eq(x, &target)) {
+                    pending.push(target);
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn scan_cycles(&self) {
         for (_, field) in &self.types {
             let mut interior_fields = IndexSet::new();
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index d4d960e..6771215 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -188,6 +188,19 @@ impl Type {
         }
     }
 
+    pub(super) fn get_referenced_types(&self, target: &mut Vec<Arc<Field>>) {
+        match self {
+            Type::Array(interior) => interior.element.get_referenced_types(target),
+            Type::Container(interior) => {
+                for (_, field) in &interior.items {
+                    field.type_.borrow().get_referenced_types(target);
+                }
+            }
+            Type::Ref(call) => target.push(call.target.clone()),
+            _ => (),
+        }
+    }
+
     pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
         match self {
             Type::Array(interior) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 1d69b52..746b9bf 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -145,6 +145,14 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
     for (name, field) in program.types.iter() {
         match &*field.type_.borrow() {
             Type::Foreign(_) => continue,
+            _ if *name != field.name => {
+                let alias = format_ident!("{}", global_name(name));
+                let ident = format_ident!("{}", global_name(&field.name));
+                components.push(quote! {
+                    pub type #alias = #ident;
+                });
+                continue;
+            }
             Type::Container(item) => {
                 components.push(generate_container(&name, &**item, options));
             }
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 8e0b105..31c0c47 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -18,7 +18,9 @@ impl Program {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
         Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![])?;
-        Program::from_ast_imported(ast, resolver, &cached_imports)
+        let mut program = Program::from_ast_imported(ast, resolver, &cached_imports)?;
+        program.include_referenced_types()?;
+        Ok(program)
     }
 
     fn from_ast_imported<T: ImportResolver + 'static>(
-- 
2.43.0


From 244c4cef4e7f30780be342fb5c4f8173aa363e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 39/40] fix: report imports that give one name to different
 declarations

---
 .../src/semantics/convert/program/import.rs   | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..8860436 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -19,10 +19,41 @@ impl Scope {
                     import_item.name.name.clone()
                 };
                 if let Some(t) = cached.types.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().types.get(&imported_name) {
+                        let same = match (&*t.type_.borrow(), &*defined.type_.borrow()) {
+                            (Type::Foreign(t), Type::Foreign(defined)) => t.name == defined.name,
+                            _ => Arc::ptr_eq(t, defined),
+                        };
+                        if !same {
+                            return Err(AsgError::TypeRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                    }
                     program.borrow_mut().types.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.consts.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().consts.get(&imported_name) {
+                        if !Arc::ptr_eq(t, defined) {
+                            return Err(AsgError::ConstRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                    }
                     program.borrow_mut().consts.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.transforms.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().transforms.get(&imported_name) {
+                        if t.name != defined.name {
+                            return Err(AsgError::TransformRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                    }
                     program
                         .borrow_mut()
                         .transforms
-- 
2.43.0


From 58d4e9dd127795450239820d3a99b09ebf4c511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 40/40] fix: generate the enums and bitfields that imported
 types mention in expressions

---
 protospec-build/src/asg/expression/mod.rs | 38 +++++++++++++++++++++++
 protospec-build/src/asg/field.rs          | 25 +++++++++++++++
 protospec-build/src/asg/program.rs        |  5 +--
 protospec-build/src/asg/types/mod.rs      | 19 ++++++++++--
 4 files changed, 80 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/asg/expression/mod.rs b/protospec-build/src/asg/expression/mod.rs
index 3b4022e..f26b2c9 100644
--- a/protospec-build/src/asg/expression/mod.rs
+++ b/protospec-build/src/asg/expression/mod.rs
@@ -87,6 +87,44 @@ impl AsgExpression for Expression {
     }
 }
 
+impl Expression {
+    pub(super) fn get_referenced_types(&self, target: &mut Vec<Arc<Field>>) {
+        match self {
+            Expression::Binary(e) => {
+                e.left.get_referenced_types(target);
+                e.right.get_referenced_types(target);
+            }
+            Expression::Unary(e) => e.inner.get_referenced_types(target),
+            Expression::Cast(e) => {
+                e.inner.get_referenced_types(target);
+                e.type_.get_referenced_types(target);
+            }
+            Expression::ArrayIndex(e) => {
+                e.array.get_referenced_types(target);
+                e.index.get_referenced_types(target);
+            }
+            Expression::EnumAccess(e) => target.push(e.enum_field.clone()),
+            Expression::ConstRef(e) => e.value.get_referenced_types(target),
+            Expression::Ternary(e) => {
+                e.condition.get_referenced_types(target);
+                e.if_true.get_referenced_types(target);
+                e.if_false.get_referenced_types(target);
+            }
+            Expression::Call(e) => {
+                for argument in &e.arguments {
+                    argument.get_referenced_types(target);
+                }
+            }
+            Expression::Member(e) => e.target.get_referenced_types(target),
+            Expression::Int(_)
+            | Expression::InputRef(_)
+            | Expression::FieldRef(_)
+            | Expression::Str(_)
+            | Expression::Bool(_) => (),
+        }
+    }
+}
+
 impl fmt::Debug for Expression {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/protospec-build/src/asg/field.rs b/protospec-build/src/asg/field.rs
index 6573977..060c938 100644
--- a/protospec-build/src/asg/field.rs
+++ b/protospec-build/src/asg/field.rs
@@ -30,6 +30,31 @@ pub struct Field {
 }
 
 impl Field {
+    /// All types that the code generated for this field mentions.
+    pub(super) fn get_referenced_types(&self, target: &mut Vec<Arc<Field>>) {
+        self.type_.borrow().get_referenced_types(target);
+        for argument in self.arguments.borrow().iter() {
+            argument.type_.get_referenced_types(target);
+            if let Some(value) = &argument.default_value {
+                value.get_referenced_types(target);
+            }
+        }
+        if let Some(calculated) = &*self.calculated.borrow() {
+            calculated.get_referenced_types(target);
+        }
+        if let Some(condition) = &*self.condition.borrow() {
+            condition.get_referenced_types(target);
+        }
+        for transform in self.transforms.borrow().iter() {
+            if let Some(condition) = &transform.condition {
+                condition.get_referenced_types(target);
+            }
+            for argument in &transform.arguments {
+                argument.get_referenced_types(target);
+            }
+        }
+    }
+
     pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
         let type_ = self.type_.borrow();
         type_.get_indirect_contained_fields(target);
diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index e12dcb0..bb68a40 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -34,10 +34,7 @@ impl Program {
                 }
             }
             let mut referenced = vec![];
-            field.type_.borrow().get_referenced_types(&mut referenced);
-            for argument in field.arguments.borrow().iter() {
-                argument.type_.get_referenced_types(&mut referenced);
-            }
+            field.get_referenced_types(&mut referenced);
             for target in referenced {
                 if !pending.iter().any(|x| Arc::ptr_eq(x, &target)) {
                     pending.push(target);
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 6771215..2c54862 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -190,13 +190,26 @@ impl Type {
 
     pub(super) fn get_referenced_types(&self, target: &mut Vec<Arc<Field>>) {
         match self {
-            Type::Array(interior) => interior.element.get_referenced_types(target),
+            Type::Array(interior) => {
+                interior.element.get_referenced_types(target);
+                if let Some(length) = &interior.length.value {
+                    length.get_referenced_types(target);
+                }
+            }
             Type::Container(interior) => {
+                if let Some(length) = &interior.length {
+                    length.get_referenced_types(target);
+                }
                 for (_, field) in &interior.items {
-                    field.type_.borrow().get_referenced_types(target);
+                    field.get_referenced_types(target);
+                }
+            }
+            Type::Ref(call) => {
+                target.push(call.target.clone());
+                for argument in &call.arguments {
+                    argument.get_referenced_types(target);
                 }
             }
-            Type::Ref(call) => target.push(call.target.clone()),
             _ => (),
         }
     }
-- 
2.43.0

