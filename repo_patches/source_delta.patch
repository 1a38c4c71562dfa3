From d556793cd8e78636c556df611ba727be008dbb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 01/23] fix: print the modulo operator as % in emitted IR

---
 ticc-core/src/pretty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-core/src/pretty.rs b/ticc-core/src/pretty.rs
index 217f59f..b57b6ca 100644
--- a/ticc-core/src/pretty.rs
+++ b/ticc-core/src/pretty.rs
@@ -161,7 +161,7 @@ impl Format<'_> {
                     ir::Op::Subtract => "-",
                     ir::Op::Multiply => "*",
                     ir::Op::Divide => "/",
-                    ir::Op::Modulo => "*",
+                    ir::Op::Modulo => "%",
                     ir::Op::Less => "<",
                     ir::Op::LessEq => "<=",
                     ir::Op::Greater => ">",
-- 
2.43.0


From e00ef63b2f3ce1c262c7928ec49730510ebdc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 02/23] fix: size the heap forwarding table by the actual heap
 capacity

---
 ticc-eval/src/heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 49424e1..2d3e720 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -103,7 +103,7 @@ impl Heap {
             .max((ensure_free + retained_bytes) as usize);
         if min_capacity > self.bytes.raw.len() {
             self.bytes.raw.ensure_size(min_capacity);
-            self.move_dst.resize(min_capacity / (Header::SIZE as usize), Addr(0));
+            self.move_dst.resize(self.bytes.raw.len() / (Header::SIZE as usize), Addr(0));
         }
         let mut new_bump = self.bytes.raw.len();
         for addr in retained.into_iter().rev() {
-- 
2.43.0


From ca0b688741a32d29eb27a9c5d0deff3af95addef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/23] fix: make room in the heap before allocating large
 values in bytecode runner

---
 ticc-eval/src/bytecode.rs | 18 ++++++++++++++++++
 ticc-eval/src/heap.rs     |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 00b61e1..c9771ec 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -260,6 +260,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
+                    self.reserve(fields as usize * 8);
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -327,6 +328,7 @@ impl Runtime {
                     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
                     concat.extend(bytes1);
                     concat.extend(bytes2);
+                    self.reserve(concat.len());
                     let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -335,6 +337,7 @@ impl Runtime {
                 }
                 Op::StringFromChar => {
                     let x = self.stack.pop_int();
+                    self.reserve(1);
                     let obj = self.heap.alloc_bytes(1 | STRING_TAG, 1);
                     obj.bytes[0] = x as u8;
                     self.stack.push(Value::Ptr(obj.addr));
@@ -344,6 +347,7 @@ impl Runtime {
                 Op::IntToString => {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
+                    self.reserve(s.len());
                     let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
@@ -360,6 +364,7 @@ impl Runtime {
                     let bytes = bytes.get(start..).unwrap_or(&[]);
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
+                    self.reserve(bytes.len());
                     let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -380,6 +385,19 @@ impl Runtime {
         }
     }
 
+    /// Make sure that an object with given size can be allocated.
+    fn reserve(&mut self, bytes: usize) {
+        let need_bytes = Heap::object_size(bytes);
+        if self.heap.free_space() < need_bytes {
+            self.heap.collect_and_grow(self.stack.ptrs()
+                .chain(self.consts.iter_mut())
+                .chain(std::iter::once(&mut self.bools.t))
+                .chain(std::iter::once(&mut self.bools.f)),
+                need_bytes as u32,
+            );
+        }
+    }
+
     fn gc(&mut self) {
         self.heap.collect(self.stack.ptrs()
             .chain(self.consts.iter_mut())
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 2d3e720..b638374 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -156,6 +156,10 @@ impl Heap {
         self.bytes.raw.len()
     }
 
+    pub(crate) fn object_size(bytes: usize) -> usize {
+        Header::SIZE as usize + (bytes + 7) / 8 * 8
+    }
+
     pub(crate) fn free_space(&self) -> usize {
         self.capacity() - self.allocated()
     }
-- 
2.43.0


From cd9d17fbb539fce6b31f446c00df76fa32b859af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/23] fix: evaluate call arguments before the callee in every
 runner

---
 ticc-eval/src/lambda.rs   | 8 ++++----
 ticc-eval/src/treewalk.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticc-eval/src/lambda.rs b/ticc-eval/src/lambda.rs
index 92322e1..e8bac53 100644
--- a/ticc-eval/src/lambda.rs
+++ b/ticc-eval/src/lambda.rs
@@ -167,8 +167,8 @@ fn compile_expr(expr: &ir::Expr, env: &mut EnvResolver) -> Box<dyn Fn(&mut Compa
                 1 => {
                     let arg = compile_expr(&args[0], env);
                     Box::new(move |env| {
-                        let f = f(env)?.into_fn().0;
                         let arg = arg(env)?;
+                        let f = f(env)?.into_fn().0;
                         f(env, &[arg])
                     })
                 }
@@ -176,9 +176,9 @@ fn compile_expr(expr: &ir::Expr, env: &mut EnvResolver) -> Box<dyn Fn(&mut Compa
                     let arg1 = compile_expr(&args[0], env);
                     let arg2 = compile_expr(&args[1], env);
                     Box::new(move |env| {
-                        let f = f(env)?.into_fn().0;
                         let arg1 = arg1(env)?;
                         let arg2 = arg2(env)?;
+                        let f = f(env)?.into_fn().0;
                         f(env, &[arg1, arg2])
                     })
                 }
@@ -187,21 +187,21 @@ fn compile_expr(expr: &ir::Expr, env: &mut EnvResolver) -> Box<dyn Fn(&mut Compa
                     let arg2 = compile_expr(&args[1], env);
                     let arg3 = compile_expr(&args[2], env);
                     Box::new(move |env| {
-                        let f = f(env)?.into_fn().0;
                         let arg1 = arg1(env)?;
                         let arg2 = arg2(env)?;
                         let arg3 = arg3(env)?;
+                        let f = f(env)?.into_fn().0;
                         f(env, &[arg1, arg2, arg3])
                     })
                 }
                 _ => {
                     let args = args.iter().map(|e| compile_expr(e, env)).collect::<Vec<_>>();
                     Box::new(move |env| {
-                        let f = f(env)?.into_fn().0;
                         let mut arg_values = Vec::with_capacity(args.len());
                         for a in &args {
                             arg_values.push(a(env)?);
                         }
+                        let f = f(env)?.into_fn().0;
                         f(env, &arg_values)
                     })
                 }
diff --git a/ticc-eval/src/treewalk.rs b/ticc-eval/src/treewalk.rs
index 5d2d3dd..ec44806 100644
--- a/ticc-eval/src/treewalk.rs
+++ b/ticc-eval/src/treewalk.rs
@@ -86,10 +86,10 @@ fn eval_impl(env: &Rc<dyn EvalEnv>, expr: &ir::Expr) -> Result<Value, Trap> {
         ir::Expr::String(s) => Ok(Value::String(s.clone())),
         ir::Expr::Name(n) => Ok(env.lookup(*n)),
         ir::Expr::Call(f, args) => {
-            let f = eval_impl(env, f)?.into_fn().0;
             let args = args.iter()
                 .map(|a| eval_impl(env, a))
                 .collect::<Result<Vec<_>, _>>()?;
+            let f = eval_impl(env, f)?.into_fn().0;
             f(&args)
         }
         ir::Expr::If(c, t, e) => {
-- 
2.43.0


From e4dd77e3c661169da5bcc65d335634fb43b7a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 05/23] fix: support constructors with more than nine fields in
 all runners

---
 ticc-eval/src/tagged.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/ticc-eval/src/tagged.rs b/ticc-eval/src/tagged.rs
index aea4cc3..f87ec55 100644
--- a/ticc-eval/src/tagged.rs
+++ b/ticc-eval/src/tagged.rs
@@ -1,47 +1,27 @@
-use std::{convert::TryInto, rc::Rc};
+use std::rc::Rc;
 use ticc_core::ir;
 use crate::Value;
 
 #[derive(Clone)]
 pub struct Tagged<F> {
-    alloc: Rc<TaggedAlloc<[Value<F>]>>,
-}
-
-struct TaggedAlloc<T: ?Sized> {
     tag: ir::Name,
-    values: T,
+    values: Rc<[Value<F>]>,
 }
 
 impl<F> Tagged<F> {
     pub(crate) fn from_array<const N: usize>(tag: ir::Name, arr: [Value<F>; N]) -> Tagged<F> {
-        let alloc = Rc::new(TaggedAlloc {
-            tag,
-            values: arr,
-        });
-        Tagged { alloc }
+        Tagged { tag, values: Rc::new(arr) }
     }
 
     pub(crate) fn from_vec(tag: ir::Name, values: Vec<Value<F>>) -> Tagged<F> {
-        match values.len() {
-            0 => Tagged::from_array::<0>(tag, []),
-            1 => Tagged::from_array::<1>(tag, values.try_into().unwrap()),
-            2 => Tagged::from_array::<2>(tag, values.try_into().unwrap()),
-            3 => Tagged::from_array::<3>(tag, values.try_into().unwrap()),
-            4 => Tagged::from_array::<4>(tag, values.try_into().unwrap()),
-            5 => Tagged::from_array::<5>(tag, values.try_into().unwrap()),
-            6 => Tagged::from_array::<6>(tag, values.try_into().unwrap()),
-            7 => Tagged::from_array::<7>(tag, values.try_into().unwrap()),
-            8 => Tagged::from_array::<8>(tag, values.try_into().unwrap()),
-            9 => Tagged::from_array::<9>(tag, values.try_into().unwrap()),
-            other => panic!("unsupported tagged value size: {}", other),
-        }
+        Tagged { tag, values: values.into() }
     }
 
     pub fn tag(&self) -> ir::Name {
-        self.alloc.tag
+        self.tag
     }
 
     pub fn fields(&self) -> &[Value<F>] {
-        &self.alloc.values
+        &self.values
     }
 }
-- 
2.43.0


From 0e3d817ab0bdd3d4d458be49dcfc73b5f95ecc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 06/23] fix: do not panic on hover over an expression that was
 not type checked

---
 ticc/src/api/info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 8f598d1..487e370 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -48,7 +48,7 @@ fn def_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
 
 fn expr_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
     let (item, expr) = find_expr_at_pos(compilation, pos)?;
-    let ty = &item.types[&expr.syntax().id()];
+    let ty = item.types.get(&expr.syntax().id())?;
     let mut type_printer = super::TypePrinter::new(compilation);
     let mut doc = String::new();
     type_printer.print_type(&ty, &mut doc);
-- 
2.43.0


From 359af98107b95a0ea1d5f4a612bb5fb0b3e71125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 07/23] fix: escape quotes and backslashes in printed strings

---
 ticc-core/src/ir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc-core/src/ir.rs b/ticc-core/src/ir.rs
index 1504b49..8a67c08 100644
--- a/ticc-core/src/ir.rs
+++ b/ticc-core/src/ir.rs
@@ -237,6 +237,8 @@ impl Debug for ByteString {
         for &b in self.bytes.iter() {
             let mut buf = [0u8; 4];
             let s = match b {
+                b'"' => "\\\"",
+                b'\\' => "\\\\",
                 32..=126 => {
                     buf[0] = b;
                     std::str::from_utf8(&buf[..1]).unwrap()
-- 
2.43.0


From 4cada99301cc7dd020af2126ece2e11454c4bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 08/23] fix: keep wrongly applied types away from the type
 checker

---
 ticc/src/compiler/kindck.rs | 3 ++-
 ticc/src/lib.rs             | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 01710f8..8b57953 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -9,12 +9,13 @@ pub(crate) fn kind_check(item: &mut ir::Item, defs: &DefSet) {
             ir::DefKind::Value { ty, .. } => {
                 check_ty(defs, ty)
             }
-            ir::DefKind::Ctor { fields, .. } => {
+            ir::DefKind::Ctor { fields, fn_ty, .. } => {
                 for field in fields {
                     if let ir::Field::Type(ty) = field {
                         check_ty(defs, ty);
                     }
                 }
+                check_ty(defs, fn_ty);
             }
             ir::DefKind::Type { .. } |
             ir::DefKind::Module { .. } => {}
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 2610018..b6f30fb 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -125,6 +125,7 @@ impl CompilationUnit {
             defs.add_item(&item);
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
+            defs.add_item(&item);
             compiler::typeck::type_check(&mut item, &defs);
             compiler::matchck::check_matches(&mut item, &defs);
             self.items.push(item);
-- 
2.43.0


From 242448ea8604d615e62639d15438ee9c5c205ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 09/23] fix: clamp editor positions past the end of a line to
 that line

---
 ticc-lsp/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 87d146d..e1d2671 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -101,7 +101,7 @@ impl ToTicc for Position {
     type TiccRepr = Pos;
 
     fn to_ticc(self, translator: &mut LocationTranslator<'_>) -> Self::TiccRepr {
-        while !translator.complete && translator.line_starts.len() <= self.line as usize {
+        while !translator.complete && translator.line_starts.len() <= self.line as usize + 1 {
             translator.find_next_line_position();
         }
         let current = translator.line_starts.get(self.line as usize).copied();
-- 
2.43.0


From dc62950405d0518baeac8c047b43680031d0718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 10/23] fix: do not find an unnamed import as a definition

---
 ticc/src/api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index cd3bd06..5dcfe9c 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -28,7 +28,7 @@ fn find_def_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Def> {
             continue;
         }
         for def in &item.defs {
-            if def.span.start() <= pos && pos <= def.span.end() {
+            if def.has_name && def.span.start() <= pos && pos <= def.span.end() {
                 return Some(&def);
             }
         }
-- 
2.43.0


From 9cec0a6bfd9211fdc8d304e5fbc2704a36869a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 11/23] fix: a used constructor makes its own type used, not
 the first one imported with it

---
 ticc/src/lint/unused.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 3a50eac..fc1d193 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -10,10 +10,6 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
         for r in &item.refs {
             used.insert(r.symbol);
         }
-        let type_def = item.defs
-            .iter()
-            .find(|d| matches!(d.kind, DefKind::Type { is_var: false, ..}))
-            .map(|d| d.symbol);
         for d in &item.defs {
             if let DefKind::Type { is_var: true, .. } = d.kind {
                 used.insert(d.symbol);
@@ -21,10 +17,8 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if d.vis == Visibility::Export {
                 used.insert(d.symbol);
             }
-            if let DefKind::Ctor { .. } = d.kind {
-                if let Some(type_sym) = type_def {
-                    deps.insert(d.symbol, type_sym);
-                }
+            if let DefKind::Ctor { type_symbol, .. } = d.kind {
+                deps.insert(d.symbol, type_symbol);
             }
         }
     }
-- 
2.43.0


From cfb874d7203f1a08841fd24261627ed00411ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 12/23] fix: report an unused imported constructor once

---
 ticc/src/lint/unused.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index fc1d193..97506a0 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -25,6 +25,7 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
     let extras = used.iter().filter_map(|s| deps.get(s).copied()).collect::<Vec<_>>();
     used.extend(extras);
     let mut lints = Vec::new();
+    let mut reported = HashSet::new();
     for item in &compilation.items {
         for d in &item.defs {
             // TODO: get rid of this once the def is not needed for codegen
@@ -32,7 +33,8 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
                 continue;
             }
             let name = &compilation.src[d.span.source_range()];
-            if !used.contains(&d.symbol) && name.chars().next() != Some('_') {
+            // an imported constructor has a def both as a value and as a pattern
+            if !used.contains(&d.symbol) && name.chars().next() != Some('_') && reported.insert((d.symbol, d.span)) {
                 lints.push(RawDiagnostic {
                     span: d.span,
                     severity: Severity::Warning,
-- 
2.43.0


From 247718c33961dce137a45d5ec2d93e8ca7b59745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 13/23] fix: complete types after a module name in a type

---
 ticc/src/compiler/resolve.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 2f59acf..8bb64bc 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -321,7 +321,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -346,7 +346,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
@@ -411,7 +411,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -436,7 +436,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
-- 
2.43.0


From 41f20be6757e92ae0f1b2adfbf399e9bfb3b0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 14/23] fix: complete exported constructors after a module name
 in an expression

---
 ticc/src/api/completion.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ticc/src/api/completion.rs b/ticc/src/api/completion.rs
index 362d70a..5d899f6 100644
--- a/ticc/src/api/completion.rs
+++ b/ticc/src/api/completion.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use ticc_syntax::Pos;
-use crate::{CompilationUnit, CompleteUnit, RawDiagnostic};
+use crate::{CompilationUnit, CompleteUnit, Namespace, RawDiagnostic};
 use crate::compiler::{Scope, ir, resolve, syntax::{AstNode, node}};
 
 pub struct Completion {
@@ -78,14 +78,14 @@ fn add_keys_from<T>(completions: &mut Vec<Completion>, map: &HashMap<&str, T>) {
 }
 
 fn add_exports(completions: &mut Vec<Completion>, unit: &CompleteUnit, for_usage: resolve::NameUsage) {
-    for (name, def) in &unit.props.exports {
-        let kind = match def.kind {
-            ir::DefKind::Value {.. } => resolve::NameUsage::Value,
-            ir::DefKind::Ctor { .. } => resolve::NameUsage::Ctor,
-            ir::DefKind::Type { .. } => resolve::NameUsage::Type,
-            ir::DefKind::Module { .. } => resolve::NameUsage::Module,
-        };
-        if kind == for_usage {
+    let namespace = match for_usage {
+        resolve::NameUsage::Value => Namespace::Value,
+        resolve::NameUsage::Ctor => Namespace::Pattern,
+        resolve::NameUsage::Type => Namespace::Type,
+        resolve::NameUsage::Module => Namespace::Module,
+    };
+    for name in unit.props.exports.keys() {
+        if name.namespace == namespace {
             completions.push(Completion { name: name.name.clone() })
         }
     }
-- 
2.43.0


From 99461b9bb6664c57f48b3bfe7f12d3b146c7fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 15/23] fix: define an unnamed type so that its constructors do
 not refer to nothing

---
 ticc/src/api.rs              |  2 +-
 ticc/src/compiler/resolve.rs | 15 +++++++++++++++
 ticc/src/lint/unused.rs      |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index 5dcfe9c..8e736ce 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -118,7 +118,7 @@ impl<'a> TypePrinter<'a> {
         if let Some(name) = self.name_cache.get(&symbol).copied() {
             return name;
         }
-        let Some(def) = find_def(self.compilation, symbol) else {
+        let Some(def) = find_def(self.compilation, symbol).filter(|def| def.has_name) else {
             // TODO: figure out names for defs from other modules
             return "???";
         };
diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 8bb64bc..e9a24bb 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -226,6 +226,21 @@ fn resolve_type_item(sink: &mut impl ResolveSink, module: ModuleKey, item: node:
             },
             name,
         ));
+    } else {
+        // constructors refer to the type even when its name is missing
+        sink.record_def(ir::Def {
+            module,
+            symbol,
+            kind: ir::DefKind::Type {
+                param_count: param_symbols.len(),
+                is_var: false,
+                ctors: ir::Ctors::List(ctors),
+            },
+            vis: ir::Visibility::Module,
+            span: item.syntax().span(),
+            node: item.syntax().id(),
+            has_name: false,
+        });
     }
 }
 
diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 97506a0..a8c3405 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -29,7 +29,7 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
     for item in &compilation.items {
         for d in &item.defs {
             // TODO: get rid of this once the def is not needed for codegen
-            if matches!(d.kind, DefKind::Module { .. }) {
+            if matches!(d.kind, DefKind::Module { .. }) || !d.has_name {
                 continue;
             }
             let name = &compilation.src[d.span.source_range()];
-- 
2.43.0


From b5e547e5ab5cbfcc09122cafbe9e08c874b0e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 16/23] fix: do not let earlier queries decide what navigation
 and hover find

---
 ticc/src/api/info.rs       | 2 +-
 ticc/src/api/navigation.rs | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 487e370..c7ce10d 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -8,7 +8,7 @@ pub struct Info {
 }
 
 pub(crate) fn info_at(compilation: &mut CompilationUnit, pos: Pos) -> Option<Info> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     def_info(compilation, pos).or_else(|| expr_info(compilation, pos))
 }
 
diff --git a/ticc/src/api/navigation.rs b/ticc/src/api/navigation.rs
index 198ea87..87fbb60 100644
--- a/ticc/src/api/navigation.rs
+++ b/ticc/src/api/navigation.rs
@@ -2,7 +2,7 @@ use crate::{CompilationUnit, Pos, Span};
 use crate::compiler::ir;
 
 pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Option<Span> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     if let Some(r) = super::find_ref_at(compilation, pos) {
         super::find_def(compilation, r.symbol).map(|def| def.span)
     } else if let Some(def) = super::find_def_at(compilation, pos) {
@@ -16,7 +16,7 @@ pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Op
 /// Returns `Some(vec![])` when there's a symbol at the given position, but
 /// there no references to that symbol in the code.
 pub(crate) fn find_references(compilation: &mut CompilationUnit, pos: Pos) -> Option<Vec<Span>> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     let symbol = super::find_def_or_ref_at(compilation, pos)?.symbol;
     let (item, def) = compilation.items
         .iter()
@@ -32,7 +32,6 @@ pub(crate) fn find_references(compilation: &mut CompilationUnit, pos: Pos) -> Op
             })
             .collect()
     } else {
-        compilation.compile_to_end();
         compilation.items
             .iter()
             .flat_map(|i| i.refs.iter())
-- 
2.43.0


From 865de867025616598830b9b074c77cc738e83c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 17/23] fix: the core validator did not check type arguments

---
 ticc-core/src/verify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ticc-core/src/verify.rs b/ticc-core/src/verify.rs
index 1ad3ca1..16865b3 100644
--- a/ticc-core/src/verify.rs
+++ b/ticc-core/src/verify.rs
@@ -293,6 +293,9 @@ impl Validator {
                 let ctor = self.ctors[ctor].clone();
                 assert_eq!(ctor.ty_vars.len(), tys.len());
                 assert_eq!(ctor.fields.len(), fields.len());
+                for ty in tys {
+                    self.check_ty(ty);
+                }
                 for (field, ty) in fields.iter().zip(&ctor.fields) {
                     let mut ty = ty.clone();
                     for (&var, t) in ctor.ty_vars.iter().zip(tys) {
@@ -336,6 +339,7 @@ impl Validator {
             },
             ir::Expr::PiApply(e, ty) => {
                 let e = self.check_expr(e);
+                self.check_ty(ty);
                 match e {
                     ir::Ty::Abs(var, mut t) => {
                         replace(&mut t, var, ty);
-- 
2.43.0


From e7d1d1e2b291223bfc5d4a939ceb87124174cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:30 +0000
Subject: [PATCH 18/23] fix: the core validator took bound type variables of
 one part of a type for those of another

---
 ticc-core/src/verify.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ticc-core/src/verify.rs b/ticc-core/src/verify.rs
index 16865b3..aab0ee8 100644
--- a/ticc-core/src/verify.rs
+++ b/ticc-core/src/verify.rs
@@ -371,7 +371,12 @@ fn assert_fits(actual: &ir::Ty, expected: &ir::Ty) {
             (ir::Ty::Int, ir::Ty::Int) |
             (ir::Ty::String, ir::Ty::String) => true,
             (ir::Ty::Var(a), ir::Ty::Var(b)) => {
-                a == b || pairs.contains(&(*a, *b))
+                for &(x, y) in pairs.iter().rev() {
+                    if x == *a || y == *b {
+                        return x == *a && y == *b;
+                    }
+                }
+                a == b
             }
             (ir::Ty::Named(a, ax), ir::Ty::Named(b, bx)) => {
                 a == b && ax.len() == bx.len() && ax.iter().zip(bx).all(|(a, b)| check(a, b, pairs))
@@ -383,7 +388,9 @@ fn assert_fits(actual: &ir::Ty, expected: &ir::Ty) {
             }
             (ir::Ty::Abs(a, at), ir::Ty::Abs(b, bt)) => {
                 pairs.push((*a, *b));
-                check(at, bt, pairs)
+                let fits = check(at, bt, pairs);
+                pairs.pop();
+                fits
             }
             _ => false,
         }
-- 
2.43.0


From 905e5ec6d224b9afe241d35b595dce07e6d639e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 19/23] fix: a callee that is not an atom is printed in
 parentheses

---
 ticc-core/src/pretty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticc-core/src/pretty.rs b/ticc-core/src/pretty.rs
index b57b6ca..9e8ae09 100644
--- a/ticc-core/src/pretty.rs
+++ b/ticc-core/src/pretty.rs
@@ -107,7 +107,7 @@ impl Format<'_> {
             ir::Expr::String(x) => self.write_string(x),
             ir::Expr::Name(n) => self.write_name(n),
             ir::Expr::Call(f, args) => {
-                self.write_expr(f, Prec::Apply);
+                self.write_expr(f, Prec::Atom);
                 self.builder.add_sticky_token("(", Sticky::Both);
                 match args.as_slice() {
                     [] => {}
@@ -275,7 +275,7 @@ impl Format<'_> {
                 self.write_expr(expr, Prec::Min);
             }
             ir::Expr::PiApply(expr, ty) => {
-                self.write_expr(expr, Prec::Apply);
+                self.write_expr(expr, Prec::Atom);
                 self.builder.add_sticky_token("[", Sticky::Both);
                 self.write_ty(ty, Prec::Min);
                 self.builder.add_sticky_token("]", Sticky::Prev);
-- 
2.43.0


From d5ab1de3019582a7067606aa499c861a201fd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:54 +0000
Subject: [PATCH 20/23] fix: a request about a document that is not open is
 answered, with no result

---
 ticc-lsp/src/handlers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 9a70bfd..3381b01 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -10,7 +10,7 @@ fn semantic_tokens(
     params: lsp_types::SemanticTokensParams,
 ) -> Option<lsp_types::SemanticTokensResult> {
     let key = FileKey::from(params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let tokens = crate::semantic_tokens::get_semantic_tokens(&mut compilation.unit);
     Some(lsp_types::SemanticTokensResult::Tokens(lsp_types::SemanticTokens {
         result_id: None,
@@ -23,7 +23,7 @@ fn go_to_definition(
     params: lsp_types::GotoDefinitionParams,
 ) -> Option<lsp_types::GotoDefinitionResponse> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     if let Some(range) = crate::go_to_definition::find_definition(&mut compilation.unit, pos) {
         Some(lsp_types::GotoDefinitionResponse::Scalar(lsp_types::Location {
@@ -40,7 +40,7 @@ fn find_references(
     params: lsp_types::ReferenceParams,
 ) -> Option<Vec<lsp_types::Location>> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     let references = crate::find_references::find_references(&mut compilation.unit, pos)?;
     let mut references = references
@@ -66,7 +66,7 @@ fn hover(
     params: lsp_types::HoverParams,
 ) -> Option<lsp_types::Hover> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     crate::hover::hover(&mut compilation.unit, pos)
 }
@@ -76,7 +76,7 @@ fn completions(
     params: lsp_types::CompletionParams,
 ) -> Option<lsp_types::CompletionResponse> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     crate::completions::completions(&mut compilation.unit, pos)
 }
-- 
2.43.0


From b3266b6fb3d279dc22c86e4ebf7d45540a78ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:54 +0000
Subject: [PATCH 21/23] fix: a request the server does not handle gets an error
 response

---
 ticc-lsp/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ff5136f..2455625 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -167,6 +167,12 @@ impl Handlers {
             }
         }
         eprintln!("unhandled request: {:?}", request.method);
+        let response = lsp_server::Response::new_err(
+            request.id,
+            lsp_server::ErrorCode::MethodNotFound as i32,
+            format!("unhandled method {:?}", request.method),
+        );
+        server.sender.send(Message::Response(response)).unwrap();
         Ok(())
     }
 
-- 
2.43.0


From 481b7b7525bfcba6950cad27135a81ec13b8c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:54 +0000
Subject: [PATCH 22/23] fix: the last of several content changes is the text of
 the document

---
 ticc-lsp/src/handlers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 3381b01..4529036 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -95,8 +95,11 @@ fn on_change(
     params: lsp_types::DidChangeTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.files.set(key.clone(), &params.content_changes[0].text);
-    on_file_update(server, key);
+    // each change carries the full text, the last one is the final state of the document
+    if let Some(change) = params.content_changes.last() {
+        server.files.set(key.clone(), &change.text);
+        on_file_update(server, key);
+    }
 }
 
 fn on_close(
-- 
2.43.0


From e0aa8e34bee568dd8b22aa95514239882f82f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:54 +0000
Subject: [PATCH 23/23] fix: modules importing a document see the file on disk
 once it is closed

---
 ticc-lsp/src/handlers.rs | 4 +++-
 ticc-lsp/src/main.rs     | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 4529036..5a61e13 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -108,7 +108,9 @@ fn on_close(
 ) {
     let key = FileKey::from(params.text_document.uri);
     server.compilations.remove_file(&key);
-    clear_diagnostics(server, key);
+    server.files.reload(&key);
+    clear_diagnostics(server, key.clone());
+    on_file_update(server, key);
 }
 
 fn on_file_update(
diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 2455625..f83621c 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -319,6 +319,14 @@ impl FileSet {
             });
     }
 
+    fn reload(&self, key: &FileKey) {
+        let content = self.read_file(key).map(Into::into).map_err(|e| e.kind());
+        if let Some(c) = self.files.lock().unwrap().get_mut(key) {
+            c.content = content;
+            c.version += 1;
+        }
+    }
+
     fn get(&self, key: &FileKey) -> FileContent {
         let x = self.files
             .lock()
-- 
2.43.0

