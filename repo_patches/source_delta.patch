From bc43d04ee24e27e1e6ae8cb2f4d4b280ac745654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 01/13] fix: compile the success continuation of a choice once

A choice compiled its success continuation in a closure called by each branch.
Accepted grammars did not compile: the optional and repeat variables, passed
as mutable references, were assigned as values (`(("a" / "b") .)? "c"`), and
the values built before the choice were moved in each branch
(`e ("+" e / "-" e) > f`). The branches now store their values in a variable
and the success continuation follows the choice.
---
 src/liboak/back/compiler/choice.rs       |  91 ++++++++--------
 src/liboak/back/compiler/mod.rs          |   2 +-
 src/liboak/back/compiler/optional.rs     |   2 -
 src/liboak/back/compiler/repeat.rs       |   2 -
 src/liboak/back/compiler/spanned_expr.rs |   3 -
 src/liboak/back/context.rs               | 126 ++++-------------------
 src/liboak/back/continuation.rs          |  10 --
 src/liboak/back/mod.rs                   |  30 +++---
 src/liboak/back/name_factory.rs          |  21 ++--
 9 files changed, 90 insertions(+), 197 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index a45dba0..43af975 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -13,10 +13,13 @@
 // limitations under the License.
 
 use back::compiler::*;
+use back::compiler::value::*;
 
 pub struct ChoiceCompiler
 {
   choices: Vec<usize>,
+  // Number of variables bound by the choice.
+  cardinality: usize,
   compiler: ExprCompilerFn
 }
 
@@ -25,70 +28,76 @@ impl ChoiceCompiler
   pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
+      cardinality: 0,
       compiler: recognizer_compiler
     }
   }
 
-  pub fn parser(choices: Vec<usize>) -> ChoiceCompiler {
+  pub fn parser(choices: Vec<usize>, cardinality: usize) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
+      cardinality: cardinality,
       compiler: parser_compiler
     }
   }
 }
 
+impl ChoiceCompiler
+{
+  fn compile_branch<'a>(&self, context: &mut Context<'a>, idx: usize, branch_result: &Ident) -> syn::Expr {
+    // A branch of an external type builds a single value, whatever is the type of the choice.
+    let cardinality =
+      if self.cardinality == 0 { 0 }
+      else { context.expr_cardinality(idx) };
+    let scope = context.open_scope_of(cardinality);
+    let value = tuple_value(context.free_variables());
+    let branch = Continuation::new(
+        parse_quote!({
+          #branch_result = Some(#value);
+          state
+        }),
+        parse_quote!(state.failure())
+      )
+      .compile_success(context, self.compiler, idx)
+      .unwrap_success();
+    context.close_scope(scope);
+    branch
+  }
+}
+
 impl CompileExpr for ChoiceCompiler
 {
   fn compile_expr<'a>(&self,  context: &mut Context<'a>,
-    mut continuation: Continuation) -> syn::Expr
+    continuation: Continuation) -> syn::Expr
   {
-    // Since we copy the success continuation for each branch, to avoid code explosion, we can extract it into a closure shared by all branches under criterion maintained by the context.
-    continuation = context.success_as_closure(continuation);
-
     let mark = context.next_mark_name();
-    let branch_failed = context.next_branch_failed_name();
-    context.push_mut_ref_fv(branch_failed.clone(), parse_quote!(bool));
+    let branch_result = context.next_branch_result_name();
 
-    // Each branch of the choice must be compiled in the same variable names environment (they share names of the variables they are building) and with a fresh success continuation size (each branch might create independent success continuation).
-    let scope = context.save_scope();
+    // The variables bound by the choice, in the scope of the success continuation.
+    let vars = tuple_pattern(context.next_free_vars(self.cardinality));
 
-    let mut choices = self.choices.clone();
-    let last = choices.pop().unwrap();
-    let mut branches: Vec<_> = choices.into_iter()
-      .map(|idx| {
-        context.restore_scope(scope.clone());
-        let b = branch_failed.clone();
-        let success: syn::Stmt = parse_quote!(#b = false;);
-        continuation.compile_and_wrap(context, self.compiler, idx, success)
-      })
+    // Each branch is compiled in its own scope and stores the values it builds in `branch_result`.
+    // Hence, the success continuation is compiled only once, and the values built before the choice are not moved into the branches.
+    let mut branches: Vec<syn::Expr> = self.choices.iter()
+      .map(|&idx| self.compile_branch(context, idx, &branch_result))
       .collect();
+    let first = branches.remove(0);
 
-    // The last branch does not need to assign `false` to the variable `branch_failed`.
-    context.restore_scope(scope.clone());
-    context.pop_mut_ref_fv();
     let (success, failure) = continuation.unwrap();
-    branches.push(context.compile(self.compiler, last, success, failure));
-
-    let mut branches_iter = branches.into_iter();
-    let first = branches_iter.next().unwrap();
-
-    let choice = branches_iter
-      .rev()
-      .fold(parse_quote!(state), |accu: syn::Expr, branch|
-        parse_quote!({
-          if #branch_failed {
-            let mut state = state.restore_from_failure(#mark.clone());
-            let state = #branch;
-            #accu
-          }
-          else { state }
-        }));
-
     parse_quote!({
       let #mark = state.mark();
-      let mut #branch_failed = true;
-      let state = #first;
-      #choice
+      let mut #branch_result = None;
+      state = #first;
+      #(if state.is_failed() {
+        state = state.restore_from_failure(#mark.clone());
+        state = #branches;
+      })*
+      if let Some(#vars) = #branch_result {
+        #success
+      }
+      else {
+        #failure
+      }
     })
   }
 }
diff --git a/src/liboak/back/compiler/mod.rs b/src/liboak/back/compiler/mod.rs
index f81f560..3d3575d 100644
--- a/src/liboak/back/compiler/mod.rs
+++ b/src/liboak/back/compiler/mod.rs
@@ -70,7 +70,7 @@ pub fn parser_compiler(grammar: &TGrammar, idx: usize) -> Box<dyn CompileExpr> {
       CharacterClass(classes) => Box::new(CharacterClassCompiler::parser(classes)),
       AnySingleChar => Box::new(AnySingleCharCompiler::parser()),
       Sequence(seq) => Box::new(SequenceCompiler::parser(seq)),
-      Choice(choices) => Box::new(ChoiceCompiler::parser(choices)),
+      Choice(choices) => Box::new(ChoiceCompiler::parser(choices, grammar[idx].type_cardinality())),
       ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::parser(expr_idx)),
       ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 0)),
       OneOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 1)),
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index 34853c7..e97f023 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -71,10 +71,8 @@ impl OptionalCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Option<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
-      ty,
       OptionalCompiler::value_constructor
     );
     let optional_expr = self.compile(context, continuation, body);
diff --git a/src/liboak/back/compiler/repeat.rs b/src/liboak/back/compiler/repeat.rs
index 2a9fda4..42e537e 100644
--- a/src/liboak/back/compiler/repeat.rs
+++ b/src/liboak/back/compiler/repeat.rs
@@ -110,10 +110,8 @@ impl RepeatCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Vec<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
-      ty,
       RepeatCompiler::value_constructor
     );
     let repeat_expr = self.compile(context, continuation, body);
diff --git a/src/liboak/back/compiler/spanned_expr.rs b/src/liboak/back/compiler/spanned_expr.rs
index 382eacc..5590c20 100644
--- a/src/liboak/back/compiler/spanned_expr.rs
+++ b/src/liboak/back/compiler/spanned_expr.rs
@@ -42,8 +42,6 @@ impl CompileExpr for SpannedExprCompiler
       result_expr = parse_quote!((#result_expr).stream_span());
     }
 
-    context.push_mark(lo_sp.clone());
-
     let spanned_expr = continuation
       .map_success(|success, _| {
         parse_quote!({
@@ -53,7 +51,6 @@ impl CompileExpr for SpannedExprCompiler
       })
       .compile_success(context, parser_compiler, self.expr_idx)
       .unwrap_success();
-    context.pop_mark();
     parse_quote!({
       let #lo_sp = state.mark();
       #spanned_expr
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 170ff1a..681299f 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -26,12 +26,8 @@ use syn::parse_quote;
 pub struct Context<'a>
 {
   grammar: &'a TGrammar,
-  closures: Vec<syn::Stmt>,
   name_factory: NameFactory,
-  free_variables: Vec<Ident>,
-  mark_variables: Vec<Ident>,
-  mut_ref_free_variables: Vec<(Ident, syn::Type)>,
-  num_combinators_compiled: usize
+  free_variables: Vec<Ident>
 }
 
 impl<'a> Context<'a>
@@ -40,12 +36,8 @@ impl<'a> Context<'a>
   {
     Context {
       grammar: grammar,
-      closures: vec![],
       name_factory: NameFactory::new(),
-      free_variables: vec![],
-      mark_variables: vec![],
-      mut_ref_free_variables: vec![],
-      num_combinators_compiled: 0
+      free_variables: vec![]
     }
   }
 
@@ -73,12 +65,10 @@ impl<'a> Context<'a>
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
     let generics = self.grammar.stream_generics();
-    let closures = self.closures;
     parse_quote!(
       #[inline]
       pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
       {
-        #(#closures)*
         #body
       }
     )
@@ -109,9 +99,7 @@ impl<'a> Context<'a>
   pub fn compile_success(&mut self, compiler: ExprCompilerFn, idx: usize,
     success: syn::Expr, failure: syn::Expr) -> syn::Expr
   {
-    let expr = self.compile(compiler, idx, success, failure);
-    self.num_combinators_compiled += 1;
-    expr
+    self.compile(compiler, idx, success, failure)
   }
 
   pub fn compile_recognizer_expr(&mut self, idx: usize) -> syn::Expr {
@@ -125,13 +113,11 @@ impl<'a> Context<'a>
 
   pub fn value_constructor<F>(&mut self,
     expr_idx: usize,
-    value_ty: syn::Type,
     value_constructor: F) -> (syn::Expr, Ident) where
    F: FnOnce(Ident, syn::Expr) -> syn::Expr,
   {
     let result_var = self.next_free_var();
     let scope = self.open_scope(expr_idx);
-    self.push_mut_ref_fv(result_var.clone(), value_ty);
     let result_value = tuple_value(self.free_variables());
     let body =
       Continuation::new(
@@ -144,57 +130,6 @@ impl<'a> Context<'a>
     (body, result_var)
   }
 
-  pub fn do_not_duplicate_success(&self) -> bool {
-    self.num_combinators_compiled > 0
-  }
-
-  pub fn success_as_closure(&mut self, continuation: Continuation) -> Continuation {
-    if self.do_not_duplicate_success() {
-      self.num_combinators_compiled = 0;
-      let closure_name = self.name_factory.next_closure_name();
-      let args = self.closure_args();
-      let params = self.closure_params();
-      continuation.map_success(|success, _| {
-        self.closures.push(parse_quote!(let #closure_name = |#(#params),*| #success;));
-        parse_quote!(#closure_name(#(#args),*))
-      })
-    }
-    else {
-      continuation
-    }
-  }
-
-  fn closure_params(&self) -> Vec<syn::FnArg> {
-    let stream_ty = self.grammar.stream_type();
-    vec![self.state_param(true)]
-      .into_iter()
-      .chain(self.mut_ref_free_variables
-        .iter().cloned()
-        .map(|(var, ty)| parse_quote!(#var: &mut #ty)))
-      .chain(self.free_variables
-        .iter()
-        .map(|var| parse_quote!(#var:_)))
-      .chain(self.mark_variables
-        .iter()
-        .map(|var| parse_quote!(#var: #stream_ty)))
-      .collect()
-  }
-
-  fn closure_args(&self) -> Vec<syn::Expr> {
-    vec![parse_quote!(state)]
-      .into_iter()
-      .chain(self.mut_ref_free_variables
-        .iter().cloned()
-        .map(|(var, _)| parse_quote!(&mut #var)))
-      .chain(self.free_variables
-        .iter()
-        .map(|var| parse_quote!(#var)))
-      .chain(self.mark_variables
-        .iter()
-        .map(|var| parse_quote!(#var.clone())))
-      .collect()
-  }
-
   pub fn next_mark_name(&mut self) -> Ident {
     self.name_factory.next_mark_name()
   }
@@ -203,43 +138,30 @@ impl<'a> Context<'a>
     self.name_factory.next_counter_name()
   }
 
-  pub fn next_branch_failed_name(&mut self) -> Ident {
-    self.name_factory.next_branch_failed_name()
+  pub fn next_branch_result_name(&mut self) -> Ident {
+    self.name_factory.next_branch_result_name()
   }
 
   pub fn next_free_var(&mut self) -> Ident {
     self.free_variables.pop().expect("Free variables are all bound.")
   }
 
+  /// The `n` next free variables, in the order of the values they are bound to.
+  pub fn next_free_vars(&mut self, n: usize) -> Vec<Ident> {
+    let len_fv = self.free_variables.len();
+    self.free_variables.split_off(len_fv - n)
+  }
+
   pub fn next_free_var_skip(&mut self, expr_idx: usize) -> Ident {
     let card = self.expr_cardinality(expr_idx);
     let len_fv = self.free_variables.len();
     self.free_variables.remove(len_fv-1-card)
   }
 
-  // Push a mark variable (e.g., `mark1 = state.mark()`) in the set of free variables.
-  // This is useful if a value constructor relies on a mark to be built, e.g. with the spanned operators `..` and `...`.
-  pub fn push_mark(&mut self, mark: Ident) {
-    self.mark_variables.push(mark);
-  }
-
-  pub fn pop_mark(&mut self) {
-    self.mark_variables.pop();
-  }
-
   pub fn free_variables(&self) -> Vec<Ident> {
     self.free_variables.clone()
   }
 
-  pub fn push_mut_ref_fv(&mut self, mut_ref_var: Ident, mut_ref_ty: syn::Type) {
-    self.mut_ref_free_variables.push((mut_ref_var,mut_ref_ty));
-  }
-
-  pub fn pop_mut_ref_fv(&mut self) {
-    self.mut_ref_free_variables.pop()
-      .expect("There is no mut ref free variables.");
-  }
-
   pub fn expr_cardinality(&self, expr_idx: usize) -> usize {
     self.grammar[expr_idx].type_cardinality()
   }
@@ -249,10 +171,12 @@ impl<'a> Context<'a>
   }
 
   pub fn open_scope(&mut self, expr_idx: usize) -> Scope {
-    let scope = self.save_scope();
-    self.num_combinators_compiled = 0;
-    self.mut_ref_free_variables = vec![];
     let cardinality = self.expr_cardinality(expr_idx);
+    self.open_scope_of(cardinality)
+  }
+
+  pub fn open_scope_of(&mut self, cardinality: usize) -> Scope {
+    let scope = self.save_scope();
     let free_vars = self.name_factory.fresh_vars(cardinality);
     self.free_variables = free_vars;
     scope
@@ -265,33 +189,23 @@ impl<'a> Context<'a>
   }
 
   pub fn save_scope(&self) -> Scope {
-    Scope::new(
-      self.num_combinators_compiled,
-      self.free_variables.clone(),
-      self.mut_ref_free_variables.clone()
-    )
+    Scope::new(self.free_variables.clone())
   }
 
   pub fn restore_scope(&mut self, scope: Scope) {
-    self.num_combinators_compiled = scope.num_combinators_compiled;
-    self.mut_ref_free_variables = scope.mut_ref_free_variables;
     self.free_variables = scope.free_variables;
   }
 }
 
 #[derive(Clone)]
 pub struct Scope {
-  num_combinators_compiled: usize,
-  free_variables: Vec<Ident>,
-  mut_ref_free_variables: Vec<(Ident, syn::Type)>
+  free_variables: Vec<Ident>
 }
 
 impl Scope {
-  fn new(n: usize, fv: Vec<Ident>, mfv: Vec<(Ident, syn::Type)>) -> Self {
+  fn new(fv: Vec<Ident>) -> Self {
     Scope {
-      num_combinators_compiled: n,
-      free_variables: fv,
-      mut_ref_free_variables: mfv
+      free_variables: fv
     }
   }
 }
diff --git a/src/liboak/back/continuation.rs b/src/liboak/back/continuation.rs
index 9c5cc52..8e28b37 100644
--- a/src/liboak/back/continuation.rs
+++ b/src/liboak/back/continuation.rs
@@ -40,16 +40,6 @@ impl Continuation
       context.compile_success(compiler, idx, success, failure))
   }
 
-  pub fn compile_and_wrap(&self, context: &mut Context,
-    compiler: ExprCompilerFn, idx: usize, before_success: syn::Stmt) -> syn::Expr
-  {
-    let success = self.success.clone();
-    let s: syn::Expr = parse_quote!({#before_success #success});
-    context.compile_success(compiler, idx,
-      s,
-      self.failure.clone())
-  }
-
   pub fn map_success<F>(mut self, f: F) -> Self where
    F: FnOnce(syn::Expr, syn::Expr) -> syn::Expr
   {
diff --git a/src/liboak/back/mod.rs b/src/liboak/back/mod.rs
index 5b7df88..83b3a1c 100644
--- a/src/liboak/back/mod.rs
+++ b/src/liboak/back/mod.rs
@@ -73,40 +73,34 @@ A simple compilation would be as follows:
 
 The problem with this strategy is that the expression `s` is duplicated for each branch of the choice expression.
 Imagine an expression such as `(e1 / e2) (e3 / e4) (e5 / e6) e7`, then you repeat the code for `e7` 8 times (for each branch combination), the code for `(e5 / e6)` 4 times and the one for `(e3 / e4)` 2 times.
-Therefore, it is not very ideal.
-Note that the function `Context::do_not_duplicate_success` allows this behavior if it returns `true`.
+Moreover, the values built before the choice and used in `s` would be moved in each branch, and the failure of `s` must not be confused with the failure of the branch.
 
-The strategy is to encapsulate the success continuation in a closure:
+The strategy is to store the values built by the branches in a variable, and to compile the success continuation only once:
 
 ```
   [e1 / e2](s,f) = {
-    let cont = |mut state: ParseState<Stream<'a>, T>, v1: T1, ..., vN: TN| {
-      s
-    };
     let mark1 = state.mark();
-    state = [e1](cont(v1,...,vN),f);
+    let mut branch_result = None;
+    state = [e1](
+      (branch_result = Some((u1,...,uN)); state),
+      f);
     if state.is_failed() {
       state = state.restore_from_failure(mark1);
-      state = [e2](cont(v1,...,vN),f);
-      if state.is_failed() {
-        f
-      }
-      else { state }
+      state = [e2](
+        (branch_result = Some((u1,...,uN)); state),
+        f);
     }
-    else { state }
+    if let Some((v1,...,vN)) = branch_result { s }
+    else { f }
   }
 ```
 
-The variables `v1...vN` are those occurring free in the success continuation `s`.
-We must keep the names and types of the variables `v1...vN` somewhere, and this is the purpose of `context.free_variables`.
-
 Another subtlety is the usage of context for free variables.
 For instance, a value of type `(T1, Option<(T2, T3)>)` is given by two variables, let's say `(x, y)`.
 However, to build `y` of type `Option<(T2, T3)>`, we need two more names `w, z`, so we can build `Some((w, z))`.
 Thus, the free variables are only interesting for a given scope, and when building the full expression.
 Scopes are managed by the `context.open_scope` and `context.close_scope` functions.
-We open a new scope when crossing a type such as Option or List, but also for semantic actions.
-When building the value `(T2, T3)`, we only care about `w` and `z`, hence if a continuation function should be build for `e`, we only need to pass `w` and `z` to it, and not `x` and `y`.
+We open a new scope when crossing a type such as Option or List, for the branches of a choice, but also for semantic actions.
 */
 
 mod context;
diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 8f20f33..6aad467 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -42,9 +42,8 @@ pub struct NameFactory
 {
   prefix_uid: usize,
   mark_uid: usize,
-  branch_failed_uid: usize,
-  counter_uid: usize,
-  closure_uid: usize
+  branch_result_uid: usize,
+  counter_uid: usize
 }
 
 impl NameFactory
@@ -53,9 +52,8 @@ impl NameFactory
     NameFactory {
       prefix_uid: 1,
       mark_uid: 0,
-      branch_failed_uid: 0,
-      counter_uid: 0,
-      closure_uid: 0
+      branch_result_uid: 0,
+      counter_uid: 0
     }
   }
 
@@ -64,14 +62,9 @@ impl NameFactory
     format_ident!("mark{}", self.mark_uid)
   }
 
-  pub fn next_branch_failed_name(&mut self) -> Ident {
-    self.branch_failed_uid += 1;
-    format_ident!("branch_failed_{}", self.branch_failed_uid)
-  }
-
-  pub fn next_closure_name(&mut self) -> Ident {
-    self.closure_uid += 1;
-    format_ident!("success_continuation_{}", self.closure_uid)
+  pub fn next_branch_result_name(&mut self) -> Ident {
+    self.branch_result_uid += 1;
+    format_ident!("branch_result_{}", self.branch_result_uid)
   }
 
   pub fn next_counter_name(&mut self) -> Ident {
-- 
2.43.0


From 9407d5471e34447015704d73e8c9898e543732d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 02/13] fix: count the carriage return of CRLF lines in
 locations

`str::lines` strips `\r\n` while only one byte was counted for the end of the
line, so every location after a CRLF line was wrong.
---
 runtime/src/file_map_stream.rs | 2 +-
 runtime/src/str_stream.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/file_map_stream.rs b/runtime/src/file_map_stream.rs
index d14abbe..5768f8b 100644
--- a/runtime/src/file_map_stream.rs
+++ b/runtime/src/file_map_stream.rs
@@ -50,7 +50,7 @@ impl<'a> FileMapStream<'a>
     // Mostly from Rust compiler (codemap.rs).
     if filemap.count_lines() == 0 {
       let mut byte_pos: u32 = filemap.start_pos.0;
-      for line in src.lines() {
+      for line in src.split_terminator('\n') {
         // register the start of this line
         filemap.next_line(BytePos(byte_pos));
         // update byte_pos to include this line and the \n at the end
diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 2465b37..fbc22ad 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -63,7 +63,7 @@ impl<'a> StrStream<'a>
   pub fn line_column(&self) -> (usize, usize) {
     let mut remaining = self.bytes_offset;
     let mut line_no = 1usize;
-    for line in self.raw_data.lines() {
+    for line in self.raw_data.split('\n') {
       let line_len = line.len() + 1;
       if remaining < line_len {
         break;
-- 
2.43.0


From 53914fb0662bf7ba949ba7e26e25887739df5bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 03/13] fix: do not cut a character in code snippets

The snippet was sliced at a fixed number of bytes, so printing an error panicked
when a multi-byte character crossed that limit.
---
 runtime/src/str_stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index fbc22ad..a2f8868 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -140,7 +140,10 @@ impl<'a> CodeSnippet for StrStream<'a>
       String::from("<end-of-file>")
     }
     else {
-      let len = min(total_len - current_offset, len_hint);
+      let mut len = min(total_len - current_offset, len_hint);
+      while !self.raw_data.is_char_boundary(current_offset + len) {
+        len -= 1;
+      }
       String::from(&self.raw_data[current_offset..][..len])
     }
   }
-- 
2.43.0


From 6d6223a4fb26e1386ebe0977cfc4e66c97e5d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 04/13] fix: reject a span operator inside a sequence

`e1 .. e2` was parsed as `e1 . . e2` because `.` was tested before `..`, so the
dedicated error was never raised.
---
 src/liboak/front/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 24df064..2a94619 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -322,6 +322,13 @@ impl FGrammar {
         let lit_str: LitStr = ps.parse()?;
         Some(self.alloc_expr(span, StrLiteral(lit_str.value())))
       }
+      // `..` must be tested before `.` which is a prefix of it.
+      else if ps.peek(Token![..]) {
+        return Err(Error::new(span,
+          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
+            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
+            rule_name).as_str()));
+      }
       // Any character `.`
       else if ps.peek(Token![.]) {
         let _: Token![.] = ps.parse()?;
@@ -352,12 +359,6 @@ impl FGrammar {
         let _ = bracketed!(sub_ps in ps);
         Some(self.parse_char_class(&sub_ps, span, rule_name)?)
       }
-      else if ps.peek(Token![..]) {
-        return Err(Error::new(span,
-          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
-            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
-            rule_name).as_str()));
-      }
       else {
         None
       };
-- 
2.43.0


From d443cfc471b467af61a99962be870d6fca57caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 05/13] fix: only warn about useless chaining when the
 rewriting is equivalent

A sequence was considered as a chain of its first expression, so
`("a"+ "b")+` was reported as `(e+)+`; choices other than `&e1 / &e2` were
reported too, and `(e+)*` was said to be equivalent to `e+`.
---
 src/liboak/middle/analysis/useless_chaining.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 4e46fdd..ad6a7df 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -26,7 +26,7 @@
 //! e?+         Taken care of by WFA.
 //! e?*         Taken care of by WFA.
 //! e+? -> e*
-//! e+* -> e+
+//! e+* -> e*
 //! e++ -> e+
 //! e*? -> e*
 //! e*+         Taken care of by WFA.
@@ -96,7 +96,7 @@ impl <'a> UselessChaining<'a>
       (POptional, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)?", "e*"),
       (POptional, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)?", "e*"),
       (POneOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)+", "e+"),
-      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e+"),
+      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e*"),
       (PZeroOrMore, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)*", "e*"),
       (_, _, _) => false // The rest is either valid or taken care of by WFA.
     }
@@ -153,8 +153,9 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
   }
 
 
-  fn visit_sequence(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    self.visit_expr(children[0])
+  // `e1 e2` is never equivalent to its first expression.
+  fn visit_sequence(&mut self, _: usize, _: Vec<usize>) -> (PredicateOrRepeat, bool) {
+    (PNothing, false)
   }
 
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
@@ -166,6 +167,11 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
       }
       crossed_rule |= crossed_rule2;
     }
+    // Only `&e1 / &e2` is equivalent to `&(e1 / e2)`.
+    // For instance, `!e1 / !e2` is not `!(e1 / e2)`, and `e1+ / e2+` is not `(e1 / e2)+`.
+    if pred_or_repeat != PAnd {
+      return (PNothing, false)
+    }
     (pred_or_repeat, crossed_rule)
   }
 }
-- 
2.43.0


From 0d173425deb3031a1262769c57ed15508e6261c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 06/13] fix: type the rules that belong to several recursive
 cycles

---
 src/liboak/middle/typing/ast.rs            |  5 +++++
 src/liboak/middle/typing/depth.rs          | 19 +++++++++++++++++++
 src/liboak/middle/typing/type_rewriting.rs |  4 +++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 0026c15..377f541 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -249,6 +249,11 @@ impl RecSet
     self.path_set[0].path[0].clone()
   }
 
+  pub fn has_single_entry_point(&self) -> bool {
+    let entry_point = self.entry_point();
+    self.path_set.iter().all(|p| p.path[0] == entry_point)
+  }
+
   pub fn to_polymorphic_path(self) -> Self {
     RecSet {
       path_set: self.path_set.into_iter()
diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 21dc3a0..df82926 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -70,7 +70,26 @@ impl Depth
     }
   }
 
+  // The type of a recursive rule can be given by another recursive rule, so the rules are reduced until none of them can be typed anymore.
+  fn reduce_rec_rules(&mut self) {
+    let rules: Vec<_> = self.surface.grammar.rules.iter().map(|r| r.expr_idx).collect();
+    let mut reduced = true;
+    while reduced {
+      reduced = false;
+      for expr_idx in rules.iter().cloned() {
+        if let ty @ Rec(_) = self.type_of(expr_idx) {
+          let ty = TypeRewriting::reduce_rec(&self.surface.grammar, ty);
+          if ty != Invisible {
+            self.surface.type_expr(expr_idx, ty);
+            reduced = true;
+          }
+        }
+      }
+    }
+  }
+
   fn reduce_all_rec(&mut self) {
+    self.reduce_rec_rules();
     let tys: Vec<_> = self.surface.grammar.exprs_info.iter().map(|e| e.ty.clone()).collect();
     let tys: Vec<_> = tys.into_iter().map(|ty| TypeRewriting::reduce_rec(&self.surface.grammar, ty)).collect();
     for (expr_info, ty) in self.surface.grammar.exprs_info.iter_mut().zip(tys.into_iter()) {
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 2181984..c9159ee 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -27,7 +27,9 @@ impl TypeRewriting
 {
   pub fn reduce_rec_entry_point(grammar: &IGrammar, rule: &Ident, ty: IType) -> IType {
     match ty {
-      Rec(ref r) if r.entry_point() == *rule => Self::reduce_rec(grammar, ty),
+      // If another rule is also an entry point, its type is not known yet and it must be reduced later.
+      Rec(ref r) if r.entry_point() == *rule && (r.is_polymorphic() || r.has_single_entry_point()) =>
+        Self::reduce_rec(grammar, ty),
       ty => ty
     }
   }
-- 
2.43.0


From 19af5735f5768be246f915e7df37cf7351e48b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 07/13] fix: check the types given to recursive expressions

---
 src/liboak/middle/typing/depth.rs | 36 +++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index df82926..c39bd1c 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -35,6 +35,7 @@ impl Depth
     if engine.surface.error { return Partial::Nothing }
     engine.warn_recursive_type();
     engine.reduce_all_rec();
+    if engine.surface.error { return Partial::Nothing }
     engine.depth();
     if engine.surface.error { return Partial::Nothing }
     engine.reduce_all_invisible();
@@ -89,12 +90,47 @@ impl Depth
   }
 
   fn reduce_all_rec(&mut self) {
+    let rec_exprs: Vec<_> = (0..self.surface.grammar.exprs.len())
+      .filter(|idx| match self.type_of(*idx) { Rec(_) => true, _ => false })
+      .collect();
     self.reduce_rec_rules();
     let tys: Vec<_> = self.surface.grammar.exprs_info.iter().map(|e| e.ty.clone()).collect();
     let tys: Vec<_> = tys.into_iter().map(|ty| TypeRewriting::reduce_rec(&self.surface.grammar, ty)).collect();
     for (expr_info, ty) in self.surface.grammar.exprs_info.iter_mut().zip(tys.into_iter()) {
       expr_info.ty = ty;
     }
+    self.check_rec_types(rec_exprs);
+  }
+
+  // A recursive expression takes the type of the other branches of the choices, it must be verified that it effectively has this type.
+  // For example, `r = "a" r r / .` has no type: if `r` has the type `char` then `"a" r r` has the type `(char, char)`.
+  fn check_rec_types(&mut self, rec_exprs: Vec<usize>) {
+    for this in 0..self.surface.grammar.exprs.len() {
+      match self.expr_by_index(this) {
+        Sequence(children) => {
+          if rec_exprs.contains(&this) {
+            let ty = TypeRewriting::reduce(&self.surface.grammar, Regular(Type::Tuple(children)));
+            self.check_rec_type(this, ty, this);
+          }
+        }
+        Choice(children) => {
+          for child in children {
+            if rec_exprs.contains(&child) {
+              self.check_rec_type(child, self.type_of(child), this);
+            }
+          }
+        }
+        _ => ()
+      }
+    }
+  }
+
+  fn check_rec_type(&mut self, this: usize, ty: IType, expected: usize) {
+    let expected_ty = self.type_of(expected);
+    // Under a unit type, the type of the expression does not matter.
+    if !expected_ty.is_unit_kind() {
+      self.error_if_not_match_ty_ascription(this, ty, expected_ty);
+    }
   }
 
   fn reduce_all_invisible(&mut self) {
-- 
2.43.0


From 239ca5f508768ca2832476e20634f2be8db57058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 08/13] fix: keep the variables of the generated code apart
 from the names of the user

---
 src/liboak/back/name_factory.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 6aad467..ba097e3 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -12,7 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use proc_macro2::Ident;
+use proc_macro2::{Ident, Span};
 use quote::format_ident;
 
 fn modify_path(mut path: syn::Path, prefix: &str) -> syn::Path {
@@ -38,6 +38,11 @@ pub fn recognizer_id(id: Ident) -> Ident {
   format_ident!("recognize_{}", id)
 }
 
+/// Identifier of a variable local to the generated functions. It is hygienic, so it does not shadow the functions and constructors of the user.
+fn local_id(name: String) -> Ident {
+  Ident::new(&name, Span::mixed_site())
+}
+
 pub struct NameFactory
 {
   prefix_uid: usize,
@@ -59,23 +64,23 @@ impl NameFactory
 
   pub fn next_mark_name(&mut self) -> Ident {
     self.mark_uid += 1;
-    format_ident!("mark{}", self.mark_uid)
+    local_id(format!("mark{}", self.mark_uid))
   }
 
   pub fn next_branch_result_name(&mut self) -> Ident {
     self.branch_result_uid += 1;
-    format_ident!("branch_result_{}", self.branch_result_uid)
+    local_id(format!("branch_result_{}", self.branch_result_uid))
   }
 
   pub fn next_counter_name(&mut self) -> Ident {
     self.counter_uid += 1;
-    format_ident!("counter{}", self.counter_uid)
+    local_id(format!("counter{}", self.counter_uid))
   }
 
   pub fn fresh_vars(&mut self, cardinality: usize) -> Vec<Ident> {
     let prefix = self.next_var_prefix();
     (0..cardinality)
-      .map(|i| format_ident!("{}{}", prefix, i))
+      .map(|i| local_id(format!("{}{}", prefix, i)))
       .collect()
   }
 
-- 
2.43.0


From 1ae1e6fc2c2451a6b874265e8ad5022139208d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 09/13] fix: an erroneous state has no data

---
 runtime/src/parse_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/parse_state.rs b/runtime/src/parse_state.rs
index 8153d33..bf055f6 100644
--- a/runtime/src/parse_state.rs
+++ b/runtime/src/parse_state.rs
@@ -152,6 +152,7 @@ impl<S, T> ParseState<S, T> where
   #[inline(always)]
   pub fn error(&mut self, expect: &'static str) {
     self.failed = true;
+    self.data = None;
     if self.current > self.farthest_read {
       self.farthest_read = self.current.clone();
       self.expected = vec![expect];
-- 
2.43.0


From 5bb1f7dba172bbceca598d1fe8fc4d4cd1b607a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 10/13] fix: keep the where clause of the stream type in the
 generated functions

---
 src/liboak/back/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 681299f..e2a478f 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -64,10 +64,13 @@ impl<'a> Context<'a>
   fn function(self, name: Ident, state_mut: bool, body: syn::Expr, ty: syn::Type) -> syn::Item {
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
-    let generics = self.grammar.stream_generics();
+    let stream_generics = self.grammar.stream_generics();
+    // Without the default parameters, which are not allowed in functions.
+    let (generics, _, where_clause) = stream_generics.split_for_impl();
     parse_quote!(
       #[inline]
       pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
+       #where_clause
       {
         #body
       }
-- 
2.43.0


From d7c6e71ec641ff6a735fd45ed4d631f8eb97a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 11/13] fix: keep the variable of the classes apart from the
 names of the user

---
 src/liboak/back/compiler/character_class.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/liboak/back/compiler/character_class.rs b/src/liboak/back/compiler/character_class.rs
index eebc3b4..e766d5f 100644
--- a/src/liboak/back/compiler/character_class.rs
+++ b/src/liboak/back/compiler/character_class.rs
@@ -13,12 +13,13 @@
 // limitations under the License.
 
 use back::compiler::*;
-use quote::format_ident;
+use proc_macro2::Span;
 
 type VarInPatternFn = for <'a> fn(&mut Context<'a>) -> Ident;
 
 fn bind_x_var<'a>(_context: &mut Context<'a>) -> Ident {
-  format_ident!("x")
+  // Hygienic, so it does not shadow an action named `x`.
+  Ident::new("x", Span::mixed_site())
 }
 
 fn bind_var<'a>(context: &mut Context<'a>) -> Ident {
-- 
2.43.0


From 206ba1508337d2f6bc06bbf7b8e101ee0835c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 12/13] fix: check the types of the calls to rules of several
 recursive cycles

A call in a recursive cycle took the type of another rule of the cycle
even if the rule called was finally of type (^), and the generated code
did not compile: r1 = "c" r3 r2?  r2 = "a" r3 "b" / "a" r1
r3 = "c" r2 "d" / .  Besides, the types are not checked anymore under a
unit type, where they do not matter.
---
 src/liboak/middle/typing/depth.rs | 54 +++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index c39bd1c..40bfba4 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -105,32 +105,52 @@ impl Depth
   // A recursive expression takes the type of the other branches of the choices, it must be verified that it effectively has this type.
   // For example, `r = "a" r r / .` has no type: if `r` has the type `char` then `"a" r r` has the type `(char, char)`.
   fn check_rec_types(&mut self, rec_exprs: Vec<usize>) {
-    for this in 0..self.surface.grammar.exprs.len() {
-      match self.expr_by_index(this) {
-        Sequence(children) => {
-          if rec_exprs.contains(&this) {
-            let ty = TypeRewriting::reduce(&self.surface.grammar, Regular(Type::Tuple(children)));
-            self.check_rec_type(this, ty, this);
-          }
+    for rule in self.surface.grammar.rules.clone() {
+      self.check_rec_expr(rule.expr_idx, &rec_exprs);
+    }
+  }
+
+  fn check_rec_expr(&mut self, this: usize, rec_exprs: &Vec<usize>) {
+    // Under a unit type, the type of the expression does not matter.
+    if self.type_of(this).is_unit_kind() {
+      return;
+    }
+    let is_rec = rec_exprs.contains(&this);
+    match self.expr_by_index(this) {
+      NonTerminalSymbol(rule) => {
+        if is_rec {
+          let rule_idx = self.surface.grammar.expr_index_of_rule(&rule);
+          self.check_rec_type(this, self.type_of(rule_idx), this);
         }
-        Choice(children) => {
-          for child in children {
-            if rec_exprs.contains(&child) {
-              self.check_rec_type(child, self.type_of(child), this);
-            }
+      }
+      Sequence(children) => {
+        if is_rec {
+          let ty = TypeRewriting::reduce(&self.surface.grammar, Regular(Type::Tuple(children.clone())));
+          self.check_rec_type(this, ty, this);
+        }
+        for child in children {
+          self.check_rec_expr(child, rec_exprs);
+        }
+      }
+      Choice(children) => {
+        for child in children {
+          if rec_exprs.contains(&child) {
+            self.check_rec_type(child, self.type_of(child), this);
           }
+          self.check_rec_expr(child, rec_exprs);
         }
-        _ => ()
       }
+      ZeroOrMore(child)
+    | OneOrMore(child)
+    | ZeroOrOne(child)
+    | SpannedExpr(child) => self.check_rec_expr(child, rec_exprs),
+      _ => ()
     }
   }
 
   fn check_rec_type(&mut self, this: usize, ty: IType, expected: usize) {
     let expected_ty = self.type_of(expected);
-    // Under a unit type, the type of the expression does not matter.
-    if !expected_ty.is_unit_kind() {
-      self.error_if_not_match_ty_ascription(this, ty, expected_ty);
-    }
+    self.error_if_not_match_ty_ascription(this, ty, expected_ty);
   }
 
   fn reduce_all_invisible(&mut self) {
-- 
2.43.0


From bd58f5ff0fb3fa7ade27d26c87fc30b0e5b35d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:14 +0000
Subject: [PATCH 13/13] fix: warn about the rules whose recursive type is
 replaced at their entry point

The recursive type of a rule such as `ab = ["ab"] ab?` was silently replaced by `(^)`, the warning was only printed when another rule of the cycle still had a recursive type.
---
 src/liboak/middle/typing/depth.rs   | 2 +-
 src/liboak/middle/typing/surface.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 40bfba4..c344c2c 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -182,7 +182,7 @@ impl Depth
   }
 
   fn warn_recursive_type(&mut self) {
-    let mut rec_set = RecSet::empty();
+    let mut rec_set = self.surface.reduced_rec_types.clone();
     for rule in &self.surface.grammar.rules {
       if let Rec(r) = self.type_of(rule.expr_idx) {
         rec_set = rec_set.union(r);
diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 08c0571..9c84551 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -25,6 +25,8 @@ pub struct Surface
 {
   pub grammar: IGrammar,
   pub error: bool,
+  // Paths of the recursive types already replaced by `(^)`.
+  pub reduced_rec_types: RecSet,
   recursion_path: Vec<Ident>
 }
 
@@ -34,6 +36,7 @@ impl Surface
     Surface {
       grammar: grammar,
       error: false,
+      reduced_rec_types: RecSet::empty(),
       recursion_path: vec![]
     }
   }
@@ -60,7 +63,10 @@ impl Surface
         self.recursion_path.push(rule_name.clone());
         let ty = self.visit_expr(expr_idx);
         self.recursion_path.pop();
-        let reduced_ty = TypeRewriting::reduce_rec_entry_point(&self.grammar, rule_name, ty);
+        let reduced_ty = TypeRewriting::reduce_rec_entry_point(&self.grammar, rule_name, ty.clone());
+        if let (Rec(rec_set), Invisible) = (ty, &reduced_ty) {
+          self.reduced_rec_types = self.reduced_rec_types.clone().union(rec_set);
+        }
         self.type_expr(expr_idx, reduced_ty)
       }
     }
-- 
2.43.0

