From 52430e324ed9de769ea2c204a24e97c7f8afafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:43 +0000
Subject: [PATCH 01/66] fix: compute text range of malformed meta items
 irrespective of field order

A meta item whose nested meta item precedes the separator (e.g. `#[ink((message)=)]`)
produced a range whose end preceded its start, which panics.
---
 crates/ir/src/attrs/meta.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 27e0df0..beffa41 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -125,10 +125,10 @@ impl MetaNameValue {
         let mut end: Option<TextSize> = None;
 
         let mut update_start_and_end = |range: TextRange| {
-            if start.is_none() {
-                start = Some(range.start());
-            }
-            end = Some(range.end());
+            // NOTE: Fields don't necessarily appear in source order for malformed meta items
+            // (e.g. a nested meta item can precede the separator in `(message)=`).
+            start = Some(start.map_or(range.start(), |it| it.min(range.start())));
+            end = Some(end.map_or(range.end(), |it| it.max(range.end())));
         };
 
         let get_items_text_range = |items: &[SyntaxElement]| -> Option<TextRange> {
-- 
2.43.0


From 3ec9b905820580bf56cb08bc167a2f133c35a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:21 +0000
Subject: [PATCH 02/66] fix: clamp LSP positions to the line and reject
 positions/ranges outside the document

Positions beyond the end of a line (or document) and inverted/out of bounds
`extractEvent` ranges panicked and brought the whole server down.
---
 .../src/dispatch/handlers/command.rs          |  2 ++
 .../src/dispatch/handlers/request.rs          | 14 +++++++----
 crates/lsp-server/src/translator/from_lsp.rs  | 25 ++++++++++++++++---
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 4078853..49f91cb 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -150,6 +150,8 @@ pub fn handle_extract_event(
     // Retrieves snapshot and computes extraction.
     let Some((extraction, snapshot)) = snapshots
         .get(&id)
+        // Ignores ranges that aren't contained in the document.
+        .filter(|snapshot| range.end() <= snapshot.context.line_index.len())
         .and_then(|snapshot| snapshot.analysis.extract(range).zip(Some(snapshot)))
     else {
         return Err(anyhow::format_err!("Failed to extract ink! event."));
diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..876a28a 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,11 +322,15 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
-        .map(|(start, end)| {
-            ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
-            )
+        .and_then(|(start, end)| {
+            let start = u32::try_from(start).ok()?;
+            let end = u32::try_from(end).ok()?;
+            (start <= end).then(|| {
+                ink_analyzer::TextRange::new(
+                    ink_analyzer::TextSize::from(start),
+                    ink_analyzer::TextSize::from(end),
+                )
+            })
         })
 }
 
diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..4c8df4f 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -9,13 +9,30 @@ pub fn offset(
     position: lsp_types::Position,
     context: &PositionTranslationContext,
 ) -> Option<ink_analyzer::TextSize> {
+    // Computes the start and end (excluding the line ending) offsets of the line.
+    let line_start = context.line_index.offset(LineCol {
+        line: position.line,
+        col: 0,
+    })?;
+    let line_end = position
+        .line
+        .checked_add(1)
+        .and_then(|line| context.line_index.offset(LineCol { line, col: 0 }))
+        .map(|next_line_start| next_line_start - ink_analyzer::TextSize::from(1))
+        .unwrap_or_else(|| context.line_index.len());
+    let line_len = u32::from(line_end - line_start);
+
+    // Characters beyond the end of the line default back to the line length.
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    // NOTE: A line's length in UTF-16 and UTF-32 is never greater than its length in UTF-8.
+    let character = position.character.min(line_len);
     let line_col = if context.encoding == lsp_types::PositionEncodingKind::UTF16
         || context.encoding == lsp_types::PositionEncodingKind::UTF32
     {
         // Handles wide position encodings.
         let wide_line_col = WideLineCol {
             line: position.line,
-            col: position.character,
+            col: character,
         };
         let wide_encoding = if context.encoding == lsp_types::PositionEncodingKind::UTF32 {
             WideEncoding::Utf32
@@ -27,11 +44,13 @@ pub fn offset(
         // Handles uft-8 position encoding.
         LineCol {
             line: position.line,
-            col: position.character,
+            col: character,
         }
     };
 
-    context.line_index.offset(line_col)
+    // Positions that "split" a character are invalid.
+    let offset = context.line_index.offset(line_col)?.min(line_end);
+    context.line_index.try_line_col(offset).and(Some(offset))
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From 3cd9b240441143f681ac38e93fe1870b8ebf1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:59 +0000
Subject: [PATCH 03/66] fix: detect ink! 5 from bare major version requirements
 only

`ink = "5"` was treated as ink! 4, while e.g. `4.5.0` and `<5.0` were treated as ink! 5.
---
 crates/lsp-server/src/dispatch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index b09bbf5..d1e6564 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -544,7 +544,8 @@ impl InkProjectVersion {
 ///
 /// NOTE: We intentionally match `>5.x.x` to v5, because no version greater than v5 currently exists.
 fn is_v5_version_string(text: &str) -> bool {
-    static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\b)(([\^~>=])|(>=))?(\s)*5\.").unwrap());
+    static RE: Lazy<Regex> =
+        Lazy::new(|| Regex::new(r"(^|,)\s*([\^~=]|[<>]=|>)?\s*5(\.|-|,|\s|$)").unwrap());
     RE.is_match(text)
 }
 
-- 
2.43.0


From 73f559fbd455b84c242ff21ef5e715cf1746a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:59 +0000
Subject: [PATCH 04/66] fix: report supported code action kinds in a
 deterministic order

---
 crates/lsp-server/src/utils.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index 9b4086b..17557f8 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -46,15 +46,15 @@ pub fn code_actions_kinds(client_capabilities: &ClientCapabilities) -> Option<Ve
         .and_then(|it| {
             // If client defines supported code action kinds,
             // return only code actions supported by both the client and server (if any), otherwise return none.
-            let code_actions_kinds: Vec<CodeActionKind> = HashSet::from(SERVER_CODE_ACTION_KINDS)
-                .intersection(
-                    &it.code_action_kind
-                        .value_set
-                        .iter()
-                        .map(|it| CodeActionKind::from(it.to_owned()))
-                        .collect::<HashSet<CodeActionKind>>(),
-                )
-                .cloned()
+            let client_code_action_kinds: HashSet<CodeActionKind> = it
+                .code_action_kind
+                .value_set
+                .iter()
+                .map(|it| CodeActionKind::from(it.to_owned()))
+                .collect();
+            let code_actions_kinds: Vec<CodeActionKind> = SERVER_CODE_ACTION_KINDS
+                .into_iter()
+                .filter(|it| client_code_action_kinds.contains(it))
                 .collect();
             (!code_actions_kinds.is_empty()).then_some(code_actions_kinds)
         })
-- 
2.43.0


From 683752d231b8849326db466c1db5009ace729982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:59 +0000
Subject: [PATCH 05/66] fix: suggest missing trait methods and arguments in
 declaration order

The order depended on hash map iteration, so the same code got different suggestions.
---
 .../src/analysis/diagnostics/contract/ink_impl.rs         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index d720fbe..793b4df 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -516,7 +516,11 @@ fn ensure_trait_definition_impl_invariants(
         }
 
         // Computes diagnostic for missing messages (if any).
-        let mut missing_messages = message_index.values().filter_map(|message| {
+        // NOTE: Messages are sorted by declaration order so that results are deterministic.
+        let sorted_messages = message_index
+            .values()
+            .sorted_by_key(|message| message.syntax().text_range().start());
+        let mut missing_messages = sorted_messages.filter_map(|message| {
             // Filters missing messages (with valid names).
             message.fn_item().and_then(|fn_item| {
                 fn_item
@@ -819,6 +823,8 @@ fn ensure_trait_definition_impl_message_args(
         .filter(|arg| {
             !seen_arg_kinds.contains(arg.kind()) && allowed_arg_kinds.contains(arg.kind())
         })
+        // NOTE: Pre-sorts by declaration order so that results are deterministic.
+        .sorted_by_key(|arg| arg.text_range().start())
         .sorted();
     if let Some(first_arg) = missing_args.next() {
         // Determines a "valid" attribute to extend (if possible).
-- 
2.43.0


From bcc49cf264af0ec1c47947faca7ba4606fb01745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:32 +0000
Subject: [PATCH 06/66] fix: derive trait selectors from the leading colon of
 the trait path

Only a trait path that starts with `::` is a full path; a relative path with
several segments contributes its last segment, and `::a::T` is a full path.
---
 crates/ir/src/selector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/selector.rs b/crates/ir/src/selector.rs
index f49789c..9cb4ca6 100644
--- a/crates/ir/src/selector.rs
+++ b/crates/ir/src/selector.rs
@@ -119,8 +119,8 @@ impl Selector {
             ast::Type::PathType(trait_path_type) => {
                 let trait_path = trait_path_type.path()?;
                 let is_full_path = trait_path
-                    .qualifier()
-                    .is_some_and(|qualifier| qualifier.coloncolon_token().is_some());
+                    .first_segment()
+                    .is_some_and(|segment| segment.coloncolon_token().is_some());
                 let trait_ident = if is_full_path {
                     let mut full_path = trait_path.to_string();
                     full_path.retain(|c| !c.is_whitespace());
-- 
2.43.0


From 25ee428ba1157442358f07fed4a971b061967fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 07/66] fix: stop at cyclic imports and type aliases when
 resolving paths

---
 crates/analyzer/src/resolution.rs | 67 +++++++++++++++++++++++++------
 crates/ir/src/tree/ast_ext.rs     | 46 +++++++++++++++++++--
 2 files changed, 98 insertions(+), 15 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..a316845 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -78,6 +78,17 @@ pub fn is_external_crate_item(
     path: &ast::Path,
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
+) -> bool {
+    is_external_crate_item_inner(name, path, qualifiers, ref_node, &mut HashSet::new())
+}
+
+// NOTE: Tracks visited type aliases, so that cyclic ones (i.e. invalid code) don't cause infinite recursion.
+fn is_external_crate_item_inner(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    visited_aliases: &mut HashSet<SyntaxNode>,
 ) -> bool {
     let name_is_path_target = is_path_target(name, path);
 
@@ -103,7 +114,7 @@ pub fn is_external_crate_item(
                 .map(|qualifier| qualifier.split("::").next().unwrap_or(qualifier))
                 .collect();
             let (use_paths, item_aliases) =
-                external_crate_uses_and_aliases_in_scope(&crates, &root_node);
+                external_crate_uses_and_aliases_in_scope(&crates, &root_node, &mut Vec::new());
 
             // Reverse `alias -> path` map to `path -> [alias]`.
             let mut item_path_to_aliases: HashMap<String, HashSet<String>> = HashMap::new();
@@ -206,17 +217,24 @@ pub fn is_external_crate_item(
                     })
                 })
             };
-            let path_is_type_alias_for_name = || {
+            let mut path_is_type_alias_for_name = || {
                 ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
                     false,
                     |type_alias| {
-                        type_alias
-                            .ty()
-                            .as_ref()
-                            .and_then(ink_analyzer_ir::path_from_type)
-                            .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
-                            })
+                        visited_aliases.insert(type_alias.syntax().clone())
+                            && type_alias
+                                .ty()
+                                .as_ref()
+                                .and_then(ink_analyzer_ir::path_from_type)
+                                .is_some_and(|path| {
+                                    is_external_crate_item_inner(
+                                        name,
+                                        &path,
+                                        qualifiers,
+                                        type_alias.syntax(),
+                                        visited_aliases,
+                                    )
+                                })
                     },
                 )
             };
@@ -304,9 +322,12 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
 }
 
 // Collects crate use paths and aliases in the current scope.
+//
+// NOTE: Tracks paths that are being resolved, so that cyclic use declarations don't cause infinite recursion.
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
+    active_paths: &mut Vec<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
@@ -319,7 +340,8 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result =
+            match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, active_paths);
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +357,12 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result = match_path_to_external_crate_in_scope(
+                &item_path_str,
+                crates,
+                ref_node,
+                active_paths,
+            );
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -355,9 +382,18 @@ fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
+    active_paths: &mut Vec<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
+
+    // Only continue if the path isn't already being resolved.
+    let active_path = (path.to_owned(), ref_node.clone());
+    if active_paths.contains(&active_path) {
+        return (use_paths, item_aliases);
+    }
+    active_paths.push(active_path);
+
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
         path.qualifier().and_then(|qualifier| {
             let target_name_option = path
@@ -377,7 +413,11 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result = external_crate_uses_and_aliases_in_scope(
+                crates,
+                &qualifier_ref_node,
+                active_paths,
+            );
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -399,6 +439,7 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        active_paths,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
@@ -407,6 +448,8 @@ fn match_path_to_external_crate_in_scope(
         }
     }
 
+    active_paths.pop();
+
     (use_paths, item_aliases)
 }
 
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..5b69b30 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -1,5 +1,6 @@
 //! AST traversal utilities.
 
+use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 use std::iter::once;
 
@@ -108,6 +109,29 @@ pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
 where
     T: AstNode + HasName,
 {
+    resolve_item_inner(path, ref_node, &VisitedPaths::default())
+}
+
+// Paths (and the nodes they're relative to) that are already visited while resolving a path.
+// NOTE: Used to stop at cyclic `use` declarations and/or type aliases.
+type VisitedPaths = RefCell<HashSet<(String, SyntaxNode)>>;
+
+fn resolve_item_inner<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &VisitedPaths,
+) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    // Only continue if the path isn't already visited.
+    if !visited
+        .borrow_mut()
+        .insert((path_to_string(path), ref_node.clone()))
+    {
+        return None;
+    }
+
     // Only continue if the last segment is valid.
     let target = path.segment()?;
     let target_name = target.name_ref()?;
@@ -139,7 +163,7 @@ where
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
+                        resolve_item_inner(&resolved_path, &root_node, visited)
                     } else {
                         None
                     }
@@ -155,7 +179,7 @@ where
                         // Only recurse if the path resolved from use scope and aliases
                         // is different from the current path argument.
                         if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
+                            resolve_item_inner(&resolved_path, ref_node, visited)
                         } else {
                             None
                         }
@@ -185,6 +209,22 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_inner(path, ref_node, &VisitedPaths::default())
+}
+
+fn resolve_qualifier_inner(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &VisitedPaths,
+) -> Option<SyntaxNode> {
+    // Only continue if the path isn't already visited.
+    if !visited
+        .borrow_mut()
+        .insert((path_to_string(path), ref_node.clone()))
+    {
+        return None;
+    }
+
     // Resolves next child module.
     let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
@@ -202,7 +242,7 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
+                        resolve_qualifier_inner(&resolved_path, root, visited)
                     } else {
                         None
                     }
-- 
2.43.0


From 5846415f665fd7d8bcff84774c0b2792a048177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 08/66] fix: resolve path qualifiers that refer to nested
 modules

---
 crates/ir/src/tree/ast_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 5b69b30..b146eef 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -228,7 +228,7 @@ fn resolve_qualifier_inner(
     // Resolves next child module.
     let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
-            root.children().find(|it| {
+            resolve_item_list_root(root).children().find(|it| {
                 ast::Module::can_cast(it.kind())
                     && ast::Module::cast(it.clone())
                         .and_then(|module| module.name())
-- 
2.43.0


From fbecfe2a5319dc886ce05fd4b61462e202e2faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 09/66] fix: ignore nested trivia when comparing trait
 definition and impl signatures

---
 crates/analyzer/src/analysis/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index dae4328..4e90699 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2053,9 +2053,9 @@ where
 /// Compares two node for equality while ignoring trivia (i.e. whitespace and comments).
 pub fn is_trivia_insensitive_eq(a: &SyntaxNode, b: &SyntaxNode) -> bool {
     let strip_trivia = |node: &SyntaxNode| {
-        node.children_with_tokens()
-            .filter(|node| !node.kind().is_trivia())
-            .join("")
+        node.descendants_with_tokens()
+            .filter(|elem| elem.as_token().is_some() && !elem.kind().is_trivia())
+            .join(" ")
     };
     strip_trivia(a) == strip_trivia(b)
 }
-- 
2.43.0


From ceeccbf94a7f2b93f8a4feaac8dbba8e8266d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 10/66] fix: detect impl blocks of ink! trait definitions
 without ink! attributes

---
 crates/ir/src/tree/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ir/src/tree/utils.rs b/crates/ir/src/tree/utils.rs
index 267b2cf..143ae5c 100644
--- a/crates/ir/src/tree/utils.rs
+++ b/crates/ir/src/tree/utils.rs
@@ -183,6 +183,8 @@ where
 /// Ref: <https://github.com/paritytech/ink/blob/master/crates/ink/ir/src/ir/item_impl/mod.rs#L118-L216>.
 pub fn ink_impl_closest_descendants(node: &SyntaxNode) -> impl Iterator<Item = InkImpl> {
     node.children()
+        .filter_map(ast::ItemList::cast)
+        .flat_map(|item_list| item_list.syntax().children())
         .filter_map(ast::Impl::cast)
         // `impl` children.
         .map(|item| item.syntax().clone())
-- 
2.43.0


From 4d7639d3ad65135fa1a351d15572ffc9880affe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 11/66] fix: order modules from outermost to innermost in
 suggested item paths

---
 crates/analyzer/src/resolution.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index a316845..8cf1c3c 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -16,14 +16,20 @@ where
     T: HasName,
 {
     item.name().map(|name| {
-        iter::once(String::from("crate"))
-            .chain(item.syntax().ancestors().filter_map(|node| {
+        let modules: Vec<_> = item
+            .syntax()
+            .ancestors()
+            .filter_map(|node| {
                 ast::Module::cast(node)
                     .as_ref()
                     .and_then(HasName::name)
                     .as_ref()
                     .map(ToString::to_string)
-            }))
+            })
+            .collect();
+        iter::once(String::from("crate"))
+            // Ancestors are visited from the innermost to the outermost module.
+            .chain(modules.into_iter().rev())
             .chain(iter::once(name.to_string()))
             .join("::")
     })
-- 
2.43.0


From 6bd0185526d4fb0c8b3dad2af0304901199ac6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:34 +0000
Subject: [PATCH 12/66] fix: consider all derive attributes when checking for
 SCALE codec traits

---
 .../src/analysis/diagnostics/common.rs        | 50 +++++++------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 31db307..f2104b4 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1998,15 +1998,16 @@ pub fn ensure_impl_scale_codec_traits(
         .as_ref()
         .map(utils::token_tree_to_non_delimited_meta_string);
 
-    // Extracts derive item paths from both the standalone and conditional derive attributes.
-    let standalone_derived_items = standalone_derive_meta.as_deref().map(meta_to_path_list);
-    let conditional_derived_items = adt.attrs().find_map(|attr| {
-        if attr
-            .path()
-            .is_some_and(|path| path.to_string().trim() == "cfg_attr")
-        {
-            attr.token_tree().map(|token_tree| {
-                token_tree
+    // Extracts derive item paths from all standalone and conditional derive attributes.
+    let derived_items: Vec<_> = adt
+        .attrs()
+        .flat_map(|attr| {
+            let attr_path = attr.path().map(|path| path.to_string());
+            match (attr_path.as_deref().map(str::trim), attr.token_tree()) {
+                (Some("derive"), Some(token_tree)) => {
+                    meta_to_path_list(&utils::token_tree_to_non_delimited_meta_string(&token_tree))
+                }
+                (Some("cfg_attr"), Some(token_tree)) => token_tree
                     .syntax()
                     .children()
                     .filter_map(|node| {
@@ -2029,21 +2030,11 @@ pub fn ensure_impl_scale_codec_traits(
                         }
                     })
                     .flat_map(|meta| meta_to_path_list(&meta))
-                    .collect::<Vec<_>>()
-            })
-        } else {
-            None
-        }
-    });
-    let derived_items = match (standalone_derived_items, conditional_derived_items) {
-        (Some(standalone), Some(conditional)) => {
-            let mut items = Vec::with_capacity(standalone.len() + conditional.len());
-            items.extend(standalone);
-            items.extend(conditional);
-            Some(items)
-        }
-        (standalone_option, conditional_option) => standalone_option.or(conditional_option),
-    };
+                    .collect(),
+                _ => Vec::new(),
+            }
+        })
+        .collect();
 
     // Finds unimplemented SCALE codec traits.
     let unimplemented_traits: Vec<_> = ([
@@ -2074,15 +2065,8 @@ pub fn ensure_impl_scale_codec_traits(
                     .as_ref()
                     .is_some_and(|attr| attr.args().iter().any(|arg| *arg.kind() == arg_kind));
             let is_derived = || {
-                derived_items.as_ref().is_some_and(|item_paths| {
-                    item_paths.iter().any(|path| {
-                        resolution::is_external_crate_item(
-                            trait_name,
-                            path,
-                            qualifiers,
-                            adt.syntax(),
-                        )
-                    })
+                derived_items.iter().any(|path| {
+                    resolution::is_external_crate_item(trait_name, path, qualifiers, adt.syntax())
                 })
             };
             // Finds trait implementation for the custom type (if any).
-- 
2.43.0


From dcd959c6c719c9a7940636da3815106ad2a40277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 13/66] fix: keep existing arguments when adding missing SCALE
 codec derives

---
 .../src/analysis/diagnostics/common.rs        | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index f2104b4..8372e50 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1991,13 +1991,6 @@ pub fn ensure_impl_scale_codec_traits(
             .collect::<Vec<_>>()
     };
 
-    // Standalone derive attribute meta item string (if any).
-    let standalone_derive_meta = standalone_derive_attr
-        .as_ref()
-        .and_then(ast::Attr::token_tree)
-        .as_ref()
-        .map(utils::token_tree_to_non_delimited_meta_string);
-
     // Extracts derive item paths from all standalone and conditional derive attributes.
     let derived_items: Vec<_> = adt
         .attrs()
@@ -2137,8 +2130,13 @@ pub fn ensure_impl_scale_codec_traits(
         let (insert_text, insert_range, insert_snippet) = target_attr
             .as_ref()
             .map(|attr| {
-                let meta_prefix = if version == Version::V4 {
-                    standalone_derive_meta.as_ref().map(|meta| {
+                // Keeps the existing meta items (if any).
+                let meta_prefix = attr
+                    .token_tree()
+                    .as_ref()
+                    .map(utils::token_tree_to_non_delimited_meta_string)
+                    .filter(|meta| !meta.trim().is_empty())
+                    .map(|meta| {
                         format!(
                             "{meta}{}",
                             if meta.trim_end().ends_with(',') {
@@ -2147,10 +2145,7 @@ pub fn ensure_impl_scale_codec_traits(
                                 ", "
                             }
                         )
-                    })
-                } else {
-                    None
-                };
+                    });
                 (
                     format!(
                         "#[{attr_path}({}{trait_paths_plain})]",
-- 
2.43.0


From ba1e7134d936505419b4db87cbf514683910df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:07 +0000
Subject: [PATCH 14/66] fix: resolve ambiguous imports deterministically

---
 crates/analyzer/src/resolution.rs | 16 +++++++++++-----
 crates/ir/src/tree/ast_ext.rs     |  3 +++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 8cf1c3c..ab7fbee 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -338,9 +338,12 @@ fn external_crate_uses_and_aliases_in_scope(
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
 
+    // NOTE: Paths and aliases are visited in order, so that ambiguous ones always resolve to the same item.
     while let Some(use_path_str) = use_paths
         .iter()
-        .find_map(|use_path| (!is_crate_item_path(use_path, crates)).then(|| use_path.to_owned()))
+        .filter(|use_path| !is_crate_item_path(use_path, crates))
+        .min()
+        .cloned()
     {
         // Removes path.
         use_paths.remove(&use_path_str);
@@ -352,9 +355,12 @@ fn external_crate_uses_and_aliases_in_scope(
         item_aliases.extend(result.1);
     }
 
-    while let Some((alias, item_path_str)) = item_aliases.iter().find_map(|(alias, item_path)| {
-        (!is_crate_item_path(item_path, crates)).then(|| (alias.to_owned(), item_path.to_owned()))
-    }) {
+    while let Some((alias, item_path_str)) = item_aliases
+        .iter()
+        .filter(|(_, item_path)| !is_crate_item_path(item_path, crates))
+        .min()
+        .map(|(alias, item_path)| (alias.to_owned(), item_path.to_owned()))
+    {
         // Removes alias.
         item_aliases.remove(&alias);
 
@@ -372,7 +378,7 @@ fn external_crate_uses_and_aliases_in_scope(
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
-                .next()
+                .min()
                 .or_else(|| result.1.get(&target.to_string()))
             {
                 item_aliases.insert(alias, resolved_item_path.to_owned());
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index b146eef..c4f8983 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -86,6 +86,9 @@ where
 macro_rules! resolve_item_path_from_use_scope_and_aliases {
     ($name: ident, $root_node: expr) => {{
         let (use_paths, item_aliases) = $crate::simple_use_paths_and_aliases_in_scope($root_node);
+        // Sorts use paths, so that ambiguous names (e.g. because of glob imports) always resolve to the same path.
+        let mut use_paths: Vec<_> = use_paths.into_iter().collect();
+        use_paths.sort_unstable();
 
         std::iter::once(item_aliases.get(&$name).cloned())
             .flatten()
-- 
2.43.0


From f3cc78da1fc5cd04037b3c3f3c7c6de615455135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:06 +0000
Subject: [PATCH 15/66] fix: ignore imports inside an item when resolving
 qualified paths

---
 crates/ir/src/tree/ast_ext.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index c4f8983..fc2c20c 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -174,7 +174,9 @@ where
             )
         };
         let resolve_from_ref_item_use_scope = || {
-            let is_module_child = ref_node.parent().is_some_and(|parent| parent == root_node);
+            // Imports inside the item don't apply to qualified paths.
+            let is_module_child = path.qualifier().is_none()
+                && ref_node.parent().is_some_and(|parent| parent == root_node);
             if is_module_child {
                 let item_name = target_name.to_string();
                 resolve_item_path_from_use_scope_and_aliases!(item_name, ref_node).find_map(
-- 
2.43.0


From e598aa7c384fab6d14ce2df86ff4564d71c63fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:21 +0000
Subject: [PATCH 16/66] fix: accept the arguments of sibling scale_derive and
 storage_item macros

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 8372e50..38cb3bb 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1083,6 +1083,13 @@ fn validate_entity_attributes(
                     ]),
                 });
             } else {
+                // Sibling ink! attribute macros (e.g. `scale_derive` and `storage_item` in ink! v5)
+                // each accept their own arguments.
+                let sibling_macro_args = (matches!(attr.kind(), InkAttributeKind::Macro(_))
+                    && is_valid_sibling_attr())
+                .then(|| utils::valid_sibling_ink_args(*attr.kind(), version));
+                let valid_sibling_args = sibling_macro_args.as_ref().unwrap_or(&valid_sibling_args);
+
                 // Handle argument level conflicts if the top level attribute kind doesn't conflict.
                 for arg in attr.args() {
                     // Checks if this arg kind is the same as the one being used by the attribute,
-- 
2.43.0


From 9bf3d6307cddf6f8d7371495f98fb67860c1a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:37 +0000
Subject: [PATCH 17/66] fix: reject complement selectors on constructors with
 split attributes

---
 crates/analyzer/src/analysis/diagnostics/common.rs |  2 +-
 crates/analyzer/src/analysis/inlay_hints.rs        |  5 +++--
 crates/analyzer/src/analysis/utils.rs              | 13 +++++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 38cb3bb..532107e 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -192,7 +192,7 @@ fn validate_arg(
             let arg_value_kind = if version == Version::V5 {
                 InkArgValueKind::from_v5(
                     *arg_kind,
-                    attr.map(|attr| *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor)),
+                    attr.map(utils::is_constructor_attribute),
                 )
             } else {
                 InkArgValueKind::from(*arg_kind)
diff --git a/crates/analyzer/src/analysis/inlay_hints.rs b/crates/analyzer/src/analysis/inlay_hints.rs
index c5444a1..faa2b59 100644
--- a/crates/analyzer/src/analysis/inlay_hints.rs
+++ b/crates/analyzer/src/analysis/inlay_hints.rs
@@ -1,8 +1,9 @@
 //! ink! attribute argument inlay hints.
 
 use ink_analyzer_ir::syntax::{AstToken, TextRange, TextSize};
-use ink_analyzer_ir::{InkArg, InkArgKind, InkArgValueKind, InkAttributeKind, InkEntity, InkFile};
+use ink_analyzer_ir::{InkArg, InkArgValueKind, InkEntity, InkFile};
 
+use super::utils;
 use crate::Version;
 
 /// An ink! attribute argument inlay hint.
@@ -56,7 +57,7 @@ pub fn inlay_hints(file: &InkFile, range: Option<TextRange>, version: Version) -
     for attr in file.tree().ink_attrs_in_scope() {
         // Returns inlay hints for all ink! attribute arguments with values in the selection range.
         for arg in attr.args() {
-            let is_constructor = *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor);
+            let is_constructor = utils::is_constructor_attribute(&attr);
             process_inlay_hint(arg, is_constructor);
 
             let mut nested_arg = None;
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 4e90699..5f48567 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -532,6 +532,19 @@ pub fn primary_ink_attribute_kind_suggestions(
     }
 }
 
+/// Determines whether the ink! attribute annotates an ink! constructor,
+/// either by itself or via one of its sibling ink! attributes.
+pub fn is_constructor_attribute(attr: &InkAttribute) -> bool {
+    let is_constructor = |it: &InkAttribute| {
+        *it.kind() == InkAttributeKind::Arg(InkArgKind::Constructor)
+    };
+    is_constructor(attr)
+        || attr
+            .syntax()
+            .parent()
+            .is_some_and(|parent| ink_analyzer_ir::ink_attrs(&parent).any(|it| is_constructor(&it)))
+}
+
 /// Filters out duplicate ink! arguments from suggestions
 /// (i.e. ink! arguments that are already applied to the attribute's parent node).
 pub fn remove_duplicate_ink_arg_suggestions(
-- 
2.43.0


From f18603ec0f26590eeefb1fce1bb9931f3711a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:34 +0000
Subject: [PATCH 18/66] fix: report nested items for arguments that take no
 value

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 532107e..5dac74c 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -218,7 +218,10 @@ fn validate_arg(
             match arg_value_kind {
                 // Arguments that must have no value.
                 InkArgValueKind::None => {
-                    if arg.meta().eq().is_some() || arg.meta().value().is_some() {
+                    if arg.meta().eq().is_some()
+                        || arg.meta().value().is_some()
+                        || arg.nested().is_some()
+                    {
                         results.push(Diagnostic {
                             message: format!("`{arg_name_text}` argument shouldn't have a value."),
                             range: arg.text_range(),
-- 
2.43.0


From b517ced1fd1d5fe398054c06d6d6f116eeb050bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 19/66] fix: cover the parentheses of nested items in argument
 ranges

---
 crates/ir/src/attrs/meta.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index beffa41..d84353f 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -158,7 +158,22 @@ impl MetaNameValue {
 
         // Parse start and end from nested meta item.
         if let Some(nested_meta) = &self.nested {
-            update_start_and_end(nested_meta.text_range());
+            let nested_range = nested_meta.text_range();
+            update_start_and_end(nested_range);
+
+            // Includes the parentheses around the nested meta item.
+            let nested_tt = nested_meta.elements().next().and_then(|elem| {
+                elem.parent()?
+                    .ancestors()
+                    .filter_map(ast::TokenTree::cast)
+                    .find(|tt| {
+                        let range = tt.syntax().text_range();
+                        range != nested_range && range.contains_range(nested_range)
+                    })
+            });
+            if let Some(r_paren) = nested_tt.and_then(|tt| tt.r_paren_token()) {
+                update_start_and_end(r_paren.text_range());
+            }
         }
 
         // Parse start and end from value field.
-- 
2.43.0


From 9a830d4976afa85145073f77644755e95e40b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 20/66] fix: ignore whitespace after a trailing comma in
 attribute arguments

---
 crates/ir/src/attrs/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index eb51a59..6e62049 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -37,7 +37,7 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
             })
     }
 
-    token_tree
+    let mut meta_items: Vec<_> = token_tree
         .syntax()
         .children_with_tokens()
         // Skip starting parenthesis if present.
@@ -127,7 +127,17 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                 )
             }
         })
-        .collect()
+        .collect();
+
+    // Whitespace between a trailing comma and the closing parenthesis isn't a meta item.
+    if r_paren.is_some()
+        && meta_items.len() > 1
+        && meta_items.last().is_some_and(MetaNameValue::is_empty)
+    {
+        meta_items.pop();
+    }
+
+    meta_items
 }
 
 // Parse meta name.
-- 
2.43.0


From 03c471de18181f8a694f1abf5e4ec68ccdc54073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 21/66] fix: keep closing delimiters and whitespace when
 accepting completions

---
 crates/analyzer/src/analysis/completions.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index ef011da..aa862da 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -111,6 +111,11 @@ pub fn macro_completions(
                 let edit_range = if focused_token_is_left_bracket {
                     let focused_token_end = focused_token.text_range().end();
                     TextRange::new(focused_token_end, focused_token_end)
+                } else if focused_token.kind() == SyntaxKind::R_BRACK
+                    || focused_token.kind().is_trivia()
+                {
+                    // Inserts at the cursor (i.e. never replaces the closing delimiter nor trivia).
+                    TextRange::empty(offset)
                 } else {
                     focused_token.text_range()
                 };
@@ -419,7 +424,10 @@ pub fn argument_completions(
                 }
 
                 // Filters suggestions by the focused prefix if the focused token is not a delimiter.
-                if !focused_token_is_left_parenthesis && !focused_token_is_comma {
+                if !focused_token_is_left_parenthesis
+                    && !focused_token_is_comma
+                    && !focused_token.kind().is_trivia()
+                {
                     if let Some(prefix) = item_at_offset.focused_token_prefix() {
                         ink_arg_suggestions.retain(|arg_kind| {
                             format!("{arg_kind}").starts_with(prefix)
@@ -446,6 +454,11 @@ pub fn argument_completions(
                             // Removes the delimiter (i.e `(` and `,`) from text range if it's the focused token.
                             let focused_token_end = focused_token.text_range().end();
                             TextRange::new(focused_token_end, focused_token_end)
+                        } else if focused_token.kind() == SyntaxKind::R_PAREN
+                            || focused_token.kind().is_trivia()
+                        {
+                            // Inserts at the cursor (i.e. never replaces the closing delimiter nor trivia).
+                            TextRange::empty(offset)
                         } else {
                             focused_token.text_range()
                         },
-- 
2.43.0


From 0664e5505093e3b58c98f9b1adcebdd39607c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 22/66] fix: don't suggest attribute macros for fields and
 variants

---
 crates/analyzer/src/analysis/completions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index aa862da..752c6c8 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -141,6 +141,18 @@ pub fn macro_completions(
                         Some((ast_item_keyword, ..)) => {
                             utils::valid_ink_macros_by_syntax_kind(ast_item_keyword.kind(), version)
                         }
+                        // ink! attribute macros can't be applied to fields and variants.
+                        None if attr.syntax().parent().is_some_and(|it| {
+                            matches!(
+                                it.kind(),
+                                SyntaxKind::RECORD_FIELD
+                                    | SyntaxKind::TUPLE_FIELD
+                                    | SyntaxKind::VARIANT
+                            )
+                        }) =>
+                        {
+                            Vec::new()
+                        }
                         // Handles the case where the AST item type is unknown.
                         None => {
                             // Returns all valid ink! attribute macro suggestions if focused token is part of an ink! path segment.
-- 
2.43.0


From 07b7e7acf620824708a8d62ff84ab3bd0f3da6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 23/66] fix: don't repeat commas that are followed by
 whitespace when adding arguments

---
 crates/analyzer/src/analysis/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 5f48567..b54880b 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1062,7 +1062,11 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .r_paren_token()
                                     .and_then(|r_paren| {
-                                        r_paren.prev_token().and_then(|penultimate_token| {
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &r_paren,
+                                            SyntaxToken::prev_token,
+                                        )
+                                        .and_then(|penultimate_token| {
                                             match penultimate_token.kind() {
                                                 SyntaxKind::COMMA | SyntaxKind::L_PAREN => None,
                                                 // Adds a comma if the token before the right parenthesis is
@@ -1098,7 +1102,11 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .l_paren_token()
                                     .and_then(|l_paren| {
-                                        l_paren.next_token().and_then(|first_token| {
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &l_paren,
+                                            SyntaxToken::next_token,
+                                        )
+                                        .and_then(|first_token| {
                                             match first_token.kind() {
                                                 SyntaxKind::COMMA | SyntaxKind::R_PAREN => None,
                                                 // Adds a comma if the token after the left parenthesis is
-- 
2.43.0


From f4001366acef3d0c22f15db70132302b2daef06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 24/66] fix: restrict argument suggestions in scopes without
 ink! descendants

---
 crates/analyzer/src/analysis/utils.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index b54880b..ebf489a 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -641,17 +641,16 @@ pub fn remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
     attr_parent: &SyntaxNode,
     version: Version,
 ) {
-    let parent_ink_scope_valid_ink_args: Vec<InkArgKind> =
-        ink_analyzer_ir::ink_attrs_closest_ancestors(attr_parent)
+    let mut ink_ancestors = ink_analyzer_ir::ink_attrs_closest_ancestors(attr_parent);
+    // Filters out invalid arguments for the parent ink! scope (if any).
+    if let Some(first_ancestor) = ink_ancestors.next() {
+        let parent_ink_scope_valid_ink_args: Vec<InkArgKind> = [first_ancestor]
+            .into_iter()
+            .chain(ink_ancestors)
             .flat_map(|attr| valid_quasi_direct_descendant_ink_args(*attr.kind(), version))
             .collect();
 
-    // Filters out invalid arguments for the parent ink! scope (if any).
-    if !parent_ink_scope_valid_ink_args.is_empty() {
-        suggestions.retain(|arg_kind| {
-            parent_ink_scope_valid_ink_args.is_empty()
-                || parent_ink_scope_valid_ink_args.contains(arg_kind)
-        });
+        suggestions.retain(|arg_kind| parent_ink_scope_valid_ink_args.contains(arg_kind));
     }
 }
 
-- 
2.43.0


From 978dca5ad4633c7baada063336b676675c79a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 25/66] fix: suggest arguments of sibling macros and no
 namespace for trait impls

---
 crates/analyzer/src/analysis/utils.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index ebf489a..b44d795 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -667,7 +667,24 @@ pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
         remove_duplicate_ink_arg_suggestions(suggestions, &attr_parent);
 
         // Filters out conflicting ink! attribute argument actions.
-        remove_conflicting_ink_arg_suggestions(suggestions, &attr_parent, version);
+        // Doesn't apply to sibling `scale_derive` and `storage_item` attribute macros (in ink! v5)
+        // as each accepts its own arguments.
+        let is_scale_or_storage_item_macro = |attr: &InkAttribute| {
+            matches!(
+                attr.kind(),
+                InkAttributeKind::Macro(InkMacroKind::ScaleDerive | InkMacroKind::StorageItem)
+            )
+        };
+        let has_own_args = version == Version::V5
+            && is_scale_or_storage_item_macro(ink_attr)
+            && primary_ink_attribute_candidate(ink_analyzer_ir::ink_attrs(&attr_parent))
+                .is_some_and(|(primary, _)| is_scale_or_storage_item_macro(&primary));
+        if !has_own_args {
+            remove_conflicting_ink_arg_suggestions(suggestions, &attr_parent, version);
+        }
+
+        // Filters out invalid ink! arguments from suggestions based on parent item's invariants.
+        remove_invalid_ink_arg_suggestions_for_parent_item(suggestions, &attr_parent);
 
         // Filters out invalid (based on parent ink! scope) ink! attribute argument actions,
         // Doesn't apply to ink! attribute macros as their arguments are not influenced by the parent scope.
-- 
2.43.0


From 743981dcafc687e8b04aa257852563a8f732a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:19 +0000
Subject: [PATCH 26/66] fix: treat blank attribute argument lists as empty

---
 crates/ir/src/attrs/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index 6e62049..a9909d5 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -129,11 +129,8 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
         })
         .collect();
 
-    // Whitespace between a trailing comma and the closing parenthesis isn't a meta item.
-    if r_paren.is_some()
-        && meta_items.len() > 1
-        && meta_items.last().is_some_and(MetaNameValue::is_empty)
-    {
+    // Whitespace before the closing parenthesis (e.g. after a trailing comma) isn't a meta item.
+    if r_paren.is_some() && meta_items.last().is_some_and(MetaNameValue::is_empty) {
         meta_items.pop();
     }
 
-- 
2.43.0


From caadd1fa600fa0af377c8671fb2f171417038511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:52 +0000
Subject: [PATCH 27/66] fix: apply the parent scope to possible arguments in
 signature help

---
 crates/analyzer/src/analysis/signature_help.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/signature_help.rs b/crates/analyzer/src/analysis/signature_help.rs
index 8792ef6..c672caa 100644
--- a/crates/analyzer/src/analysis/signature_help.rs
+++ b/crates/analyzer/src/analysis/signature_help.rs
@@ -118,11 +118,7 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                             // (also accounts for parent scope).
                             let mut possible_args =
                                 utils::valid_ink_args_by_syntax_kind(parent_item_kind, version);
-                            if let Some(attr_parent) = ink_attr
-                                .syntax()
-                                .parent()
-                                .filter(|it| it.kind() == parent_item_kind)
-                            {
+                            if let Some(attr_parent) = ink_attr.syntax().parent() {
                                 utils::remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
                                     &mut possible_args,
                                     &attr_parent,
@@ -155,7 +151,10 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                                                 InkAttributeKind::Arg(*arg_kind),
                                                 version,
                                             ))
-                                            .filter(|arg_kind| arg_kind.is_entity_type())
+                                            .filter(|arg_kind| {
+                                                arg_kind.is_entity_type()
+                                                    && possible_args.contains(arg_kind)
+                                            })
                                             .collect();
                                         if primary_args.is_empty() {
                                             vec![*arg_kind]
-- 
2.43.0


From dd4b85e762b0af45e5c7c543b34d473e779f214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 28/66] fix: keep the trailing semicolon when removing a
 default implementation

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 5dac74c..e8e4d5e 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1690,7 +1690,10 @@ pub fn ensure_trait_item_invariants<F, G>(
                                     label: "Remove function body.".to_owned(),
                                     kind: ActionKind::QuickFix,
                                     range: body.syntax().text_range(),
-                                    edits: vec![TextEdit::delete(body.syntax().text_range())],
+                                    edits: vec![TextEdit::replace(
+                                        ";".to_owned(),
+                                        body.syntax().text_range(),
+                                    )],
                                 }
                             ]),
                         });
-- 
2.43.0


From 93eda9012d88bde72bb5482cfba87611e7923dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 29/66] fix: don't offer inherent callables for trait impls
 without ink! items

---
 .../analyzer/src/analysis/diagnostics/contract/ink_impl.rs  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index 793b4df..5891c48 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -282,6 +282,10 @@ pub fn ensure_impl_invariants(results: &mut Vec<Diagnostic>, ink_impl: &InkImpl)
 fn ensure_annotation_or_contains_callable(ink_impl: &InkImpl) -> Option<Diagnostic> {
     // Gets the declaration range for the item.
     let range = utils::ink_impl_declaration_range(ink_impl);
+    // Inherent ink! callables can't be added to trait `impl` blocks.
+    let inherent_impl = ink_impl
+        .impl_item()
+        .filter(|impl_item| impl_item.trait_().is_none());
     (ink_impl.impl_attr().is_none()
         && ink_impl.constructors().is_empty()
         && ink_impl.messages().is_empty())
@@ -291,7 +295,7 @@ fn ensure_annotation_or_contains_callable(ink_impl: &InkImpl) -> Option<Diagnost
             .to_owned(),
         range,
         severity: Severity::Error,
-        quickfixes: ink_impl.impl_item().as_ref().map(|impl_item| {
+        quickfixes: inherent_impl.map(|impl_item| {
             // Adds ink! callables if possible.
             [
                 entity_actions::add_constructor_to_impl(impl_item, ActionKind::QuickFix, None),
-- 
2.43.0


From 8767a5c1c502dd2cce748933864d835487f647a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 30/66] fix: only offer to move actual items

---
 crates/analyzer/src/analysis/diagnostics/common.rs           | 5 +++++
 crates/analyzer/src/analysis/diagnostics/contract.rs         | 2 ++
 .../analyzer/src/analysis/diagnostics/contract/ink_impl.rs   | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index e8e4d5e..c52ed85 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1721,6 +1721,8 @@ where
         // Moves the item to the root of the closest ink! contract's `mod` item.
         quickfixes: ink_analyzer_ir::ink_ancestors::<Contract>(item.syntax())
             .next()
+            // Only items can be moved to a `mod` item.
+            .filter(|_| ast::Item::can_cast(item.syntax().kind()))
             .as_ref()
             .and_then(Contract::module)
             .and_then(|mod_item| Some(mod_item).zip(mod_item.item_list()))
@@ -1757,6 +1759,8 @@ where
                         .find_map(ast::Impl::cast)
                 })
         })
+        // Only `fn` items can be moved to an `impl` block.
+        .filter(|_| ast::Fn::can_cast(item.syntax().kind()))
         .as_ref()
         .and_then(|impl_item| Some(impl_item).zip(impl_item.assoc_item_list()))
         .map(|(impl_item, assoc_item_list)| {
@@ -1771,6 +1775,7 @@ where
         .or_else(|| {
             ink_analyzer_ir::ink_ancestors::<Contract>(item.syntax())
                 .next()
+                .filter(|_| ast::Fn::can_cast(item.syntax().kind()))
                 .and_then(|contract| {
                     // Moves the item to the first non-trait `impl` block or creates a new `impl` block if necessary for the parent ink! contract (if any).
                     utils::callable_insert_offset_indent_and_affixes(&contract).map(
diff --git a/crates/analyzer/src/analysis/diagnostics/contract.rs b/crates/analyzer/src/analysis/diagnostics/contract.rs
index 176e3c9..3e0d741 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract.rs
@@ -600,6 +600,8 @@ where
         severity: Severity::Error,
         quickfixes: contract
             .module()
+            // Only items can be moved to a `mod` item.
+            .filter(|_| ast::Item::can_cast(item.syntax().kind()))
             .and_then(ast::Module::item_list)
             .map(|item_list| {
                 // Moves the item to the root of the ink! contract's `mod` item.
diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index 5891c48..92a4690 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -325,6 +325,8 @@ where
         severity: Severity::Error,
         quickfixes: ink_impl
             .impl_item()
+            // Only `fn` items can be moved to an `impl` block.
+            .filter(|_| ast::Fn::can_cast(item.syntax().kind()))
             .and_then(|it| it.assoc_item_list())
             .map(|assoc_item_list| {
                 // Moves the item to the root of the `impl` block.
-- 
2.43.0


From 3ad90f2f1fdbc9ed07461a361ef38d15ae6f8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 31/66] fix: remove the whole variadic parameter

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index c52ed85..3652542 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1440,7 +1440,8 @@ pub fn ensure_fn_invariants(
                 .filter_map(|param| {
                     param.dotdotdot_token().map(|dotdotdot| {
                         // Edit range for quickfix.
-                        let range = utils::token_and_delimiter_range(&dotdotdot, SyntaxKind::COMMA);
+                        let range =
+                            utils::node_and_delimiter_range(param.syntax(), SyntaxKind::COMMA);
                         Diagnostic {
                             message: format!("ink! {ink_scope_name} must not be variadic."),
                             range: dotdotdot.text_range(),
-- 
2.43.0


From daa881525e73906dab19dcf13399f4a0a08b3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 32/66] fix: don't insert callables into impl blocks with
 unrelated ink! attributes

---
 crates/analyzer/src/analysis/utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index b44d795..5d4a516 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1875,7 +1875,15 @@ pub fn callable_insert_offset_indent_and_affixes(
         .and_then(ast::Module::item_list)
         .and_then(|it| {
             it.items().find_map(|it| match it {
-                ast::Item::Impl(impl_item) => impl_item.trait_().is_none().then_some(impl_item),
+                // Ignores `impl` blocks with unrelated ink! attributes.
+                ast::Item::Impl(impl_item) => (impl_item.trait_().is_none()
+                    && ink_analyzer_ir::ink_attrs(impl_item.syntax()).all(|attr| {
+                        matches!(
+                            attr.kind(),
+                            InkAttributeKind::Arg(InkArgKind::Impl | InkArgKind::Namespace)
+                        )
+                    }))
+                .then_some(impl_item),
                 _ => None,
             })
         })
-- 
2.43.0


From a63a68534e04e71e1f9f785ad97717cb7836dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 33/66] fix: remove the delimiter together with a field

---
 crates/analyzer/src/analysis/actions.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions.rs b/crates/analyzer/src/analysis/actions.rs
index fe018f6..eeb4920 100644
--- a/crates/analyzer/src/analysis/actions.rs
+++ b/crates/analyzer/src/analysis/actions.rs
@@ -6,8 +6,8 @@ mod item;
 
 use std::cmp::Ordering;
 
-use ink_analyzer_ir::syntax::{SyntaxNode, TextRange, TextSize};
-use ink_analyzer_ir::{InkAttribute, InkFile};
+use ink_analyzer_ir::syntax::{AstNode, SyntaxKind, SyntaxNode, TextRange, TextSize};
+use ink_analyzer_ir::{ast, InkAttribute, InkFile};
 use itertools::Itertools;
 
 use super::utils;
@@ -72,11 +72,20 @@ impl Action {
 
     /// Removes an item.
     pub(crate) fn remove_item(item: &SyntaxNode) -> Self {
+        // Includes the delimiter for fields.
+        let is_field = ast::RecordField::can_cast(item.kind())
+            || ast::TupleField::can_cast(item.kind())
+            || ast::Variant::can_cast(item.kind());
+        let range = if is_field {
+            utils::node_and_delimiter_range(item, SyntaxKind::COMMA)
+        } else {
+            item.text_range()
+        };
         Self {
             label: "Remove item.".to_owned(),
             kind: ActionKind::QuickFix,
             range: item.text_range(),
-            edits: vec![TextEdit::delete(item.text_range())],
+            edits: vec![TextEdit::delete(range)],
         }
     }
 
-- 
2.43.0


From 227db07fd5d3b7a8b8d3be6ff6723e4561bbf158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 34/66] fix: include closing delimiters when removing nested
 arguments

---
 crates/analyzer/src/analysis/utils.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 5d4a516..29cc1e6 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1572,10 +1572,24 @@ pub fn ink_arg_and_delimiter_removal_range(
     parent_attr_option: Option<&InkAttribute>,
 ) -> TextRange {
     // Gets the last token of the ink! attribute argument (if any).
-    let last_token_option = arg.meta().elements().last().and_then(|elem| match elem {
-        SyntaxElement::Node(node) => node.last_token(),
-        SyntaxElement::Token(token) => Some(token.clone()),
-    });
+    // NOTE: Elements of nested arguments don't include the closing delimiter(s).
+    let last_token_option = arg
+        .meta()
+        .elements()
+        .last()
+        .and_then(|elem| match elem {
+            SyntaxElement::Node(node) => node.last_token(),
+            SyntaxElement::Token(token) => Some(token.clone()),
+        })
+        .map(|mut token| {
+            while token.text_range().end() < arg.text_range().end() {
+                let Some(next_token) = token.next_token() else {
+                    break;
+                };
+                token = next_token;
+            }
+            token
+        });
 
     // Determines the parent attribute for the argument.
     if let Some(attr) = parent_attr_option.cloned().or_else(|| {
-- 
2.43.0


From a409079957bd4bfe49cba112083641aa8554388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 35/66] fix: merge overlapping edits when removing conflicting
 arguments

---
 .../analyzer/src/analysis/diagnostics/common.rs  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 3652542..a6ba9cf 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1069,13 +1069,19 @@ fn validate_entity_attributes(
                                         edits: conflicting_args
                                             .iter()
                                             .map(|arg| {
-                                                TextEdit::delete(
-                                                    utils::ink_arg_and_delimiter_removal_range(
-                                                        arg,
-                                                        Some(attr),
-                                                    ),
+                                                utils::ink_arg_and_delimiter_removal_range(
+                                                    arg,
+                                                    Some(attr),
                                                 )
                                             })
+                                            // Merges ranges that share a delimiter.
+                                            .coalesce(|prev, next| {
+                                                prev.intersect(next)
+                                                    .filter(|range| !range.is_empty())
+                                                    .map(|_| prev.cover(next))
+                                                    .ok_or((prev, next))
+                                            })
+                                            .map(TextEdit::delete)
                                             .collect(),
                                     }
                                 }
-- 
2.43.0


From 7d620144ac0d0b18e9517a5bcad950790c79984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:22 +0000
Subject: [PATCH 36/66] fix: ignore unrelated impl blocks for callables in
 nested modules too

---
 crates/analyzer/src/analysis/utils.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 29cc1e6..6c26876 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1883,21 +1883,23 @@ pub fn field_insert_offset_end_and_affixes(
 pub fn callable_insert_offset_indent_and_affixes(
     contract: &Contract,
 ) -> Option<(TextSize, String, Option<String>, Option<String>)> {
+    // Ignores trait `impl` blocks and `impl` blocks with unrelated ink! attributes.
+    let is_callable_impl = |impl_item: &ast::Impl| {
+        impl_item.trait_().is_none()
+            && ink_analyzer_ir::ink_attrs(impl_item.syntax()).all(|attr| {
+                matches!(
+                    attr.kind(),
+                    InkAttributeKind::Arg(InkArgKind::Impl | InkArgKind::Namespace)
+                )
+            })
+    };
     contract
         .module()
         // Gets the first non-trait `impl` block (if any).
         .and_then(ast::Module::item_list)
         .and_then(|it| {
             it.items().find_map(|it| match it {
-                // Ignores `impl` blocks with unrelated ink! attributes.
-                ast::Item::Impl(impl_item) => (impl_item.trait_().is_none()
-                    && ink_analyzer_ir::ink_attrs(impl_item.syntax()).all(|attr| {
-                        matches!(
-                            attr.kind(),
-                            InkAttributeKind::Arg(InkArgKind::Impl | InkArgKind::Namespace)
-                        )
-                    }))
-                .then_some(impl_item),
+                ast::Item::Impl(impl_item) => is_callable_impl(&impl_item).then_some(impl_item),
                 _ => None,
             })
         })
@@ -1907,8 +1909,8 @@ pub fn callable_insert_offset_indent_and_affixes(
             contract
                 .impls()
                 .iter()
-                .find(|it| it.trait_type().is_none())
-                .and_then(InkImpl::impl_item)
+                .filter_map(InkImpl::impl_item)
+                .find(|impl_item| is_callable_impl(impl_item))
         })
         .and_then(|impl_item| Some(impl_item).zip(impl_item.assoc_item_list()))
         .map(|(impl_item, assoc_item_list)| {
-- 
2.43.0


From cbbba18ae4801aac272657554a1bb8befc6a85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:51 +0000
Subject: [PATCH 37/66] fix: only suggest valid identifiers when renaming

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index a6ba9cf..6b3fecb 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -81,11 +81,16 @@ fn ensure_no_ink_identifiers<T: InkEntity>(results: &mut Vec<Diagnostic>, item:
             if name.starts_with("__ink_") {
                 // Suggested name for quickfix.
                 let suggested_name = name.replace("__ink_", "");
+                // Only suggests valid identifiers.
+                let is_valid_name = !suggested_name.is_empty()
+                    && suggested_name != "_"
+                    && !suggested_name.starts_with(|c: char| c.is_ascii_digit())
+                    && SyntaxKind::from_keyword(&suggested_name).is_none();
                 results.push(Diagnostic {
                     message: format!("Invalid identifier starting with __ink_: {}", ident.text()),
                     range: ident.syntax().text_range(),
                     severity: Severity::Error,
-                    quickfixes: (!suggested_name.is_empty()).then(|| {
+                    quickfixes: is_valid_name.then(|| {
                         vec![Action {
                             label: format!("Rename identifier to `{suggested_name}`"),
                             kind: ActionKind::QuickFix,
-- 
2.43.0


From 5af5176e72de2263b040ed5bd4a2c6583bdf9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:13 +0000
Subject: [PATCH 38/66] fix: suggest names for overlapping selectors that are
 not taken

---
 .../src/analysis/diagnostics/contract.rs      | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract.rs b/crates/analyzer/src/analysis/diagnostics/contract.rs
index 3e0d741..ec9f546 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract.rs
@@ -10,8 +10,8 @@ use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::meta::MetaValue;
 use ink_analyzer_ir::syntax::{AstNode, SyntaxKind, SyntaxNode, SyntaxToken};
 use ink_analyzer_ir::{
-    ast, Contract, InkArg, InkArgKind, InkAttributeKind, InkEntity, InkMacroKind, IsInkCallable,
-    IsInkFn, Message, Selector, SelectorArg, Storage,
+    ast, Constructor, Contract, InkArg, InkArgKind, InkAttributeKind, InkEntity, InkMacroKind,
+    IsInkCallable, IsInkFn, Message, Selector, SelectorArg, Storage,
 };
 
 use super::{common, environment, event, ink_e2e_test, ink_test, message};
@@ -264,6 +264,14 @@ where
 ///
 /// Ref: <https://github.com/paritytech/ink/blob/v4.1.0/crates/ink/ir/src/ir/trait_def/item/mod.rs#L336-L337>.
 fn ensure_no_overlapping_selectors(results: &mut Vec<Diagnostic>, contract: &Contract) {
+    // Names that can't be suggested for ink! constructors and messages.
+    let mut unavailable_names: HashSet<String> = contract
+        .constructors()
+        .iter()
+        .filter_map(Constructor::fn_item)
+        .chain(contract.messages().iter().filter_map(Message::fn_item))
+        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
+        .collect();
     for (selectors, name, mut unavailable_ids) in [
         (
             get_composed_selectors(contract.constructors()),
@@ -340,14 +348,19 @@ fn ensure_no_overlapping_selectors(results: &mut Vec<Diagnostic>, contract: &Con
                         })
                         .or_else(|| {
                             fn_name_option().map(|name| {
+                                let suggested_name = utils::suggest_unique_name(
+                                    &name.to_string(),
+                                    &unavailable_names,
+                                );
+                                unavailable_names.insert(suggested_name.clone());
                                 vec![Action {
                                     label: "Replace with a unique name.".to_owned(),
                                     kind: ActionKind::QuickFix,
                                     range: name.syntax().text_range(),
                                     edits: vec![TextEdit::replace_with_snippet(
-                                        format!("{name}2"),
+                                        suggested_name.clone(),
                                         name.syntax().text_range(),
-                                        Some(format!("${{1:{name}2}}")),
+                                        Some(format!("${{1:{suggested_name}}}")),
                                     )],
                                 }]
                             })
-- 
2.43.0


From ca684e08ce16b33bca70906deca66d2f5a9cad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:52 +0000
Subject: [PATCH 39/66] fix: migrate calls in conditions, iterables, guards and
 let-else blocks

---
 .../src/analysis/migrate/traversal.rs         | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/traversal.rs b/crates/analyzer/src/analysis/migrate/traversal.rs
index 75150f4..a3f1866 100644
--- a/crates/analyzer/src/analysis/migrate/traversal.rs
+++ b/crates/analyzer/src/analysis/migrate/traversal.rs
@@ -52,6 +52,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_expr_opt!(visitor, expr.body());
         }
         ast::Expr::ForExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.iterable());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -76,8 +77,10 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
         ast::Expr::MatchExpr(expr) => {
             visit_sub_expr!(visitor, expr);
             if let Some(arms) = expr.match_arm_list().as_ref().map(ast::MatchArmList::arms) {
-                let arms_exprs = arms.filter_map(|arm| arm.expr());
-                visit_sub_exprs_iter!(visitor, arms_exprs);
+                for arm in arms {
+                    visit_sub_expr_opt!(visitor, arm.guard().and_then(|guard| guard.condition()));
+                    visit_sub_expr_opt!(visitor, arm.expr());
+                }
             }
         }
         ast::Expr::MethodCallExpr(expr) => {
@@ -99,6 +102,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_exprs_iter!(visitor, expr.fields());
         }
         ast::Expr::WhileExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.condition());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -126,15 +130,18 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         return;
     };
     for stmt in stmt_list.statements() {
-        let expr = match stmt {
-            ast::Stmt::ExprStmt(expr_stmt) => expr_stmt.expr(),
-            ast::Stmt::LetStmt(let_stmt) => let_stmt.initializer(),
-            ast::Stmt::Item(_) => None,
+        match stmt {
+            ast::Stmt::ExprStmt(expr_stmt) => {
+                visit_sub_expr_opt!(visitor, expr_stmt.expr());
+            }
+            ast::Stmt::LetStmt(let_stmt) => {
+                visit_sub_expr_opt!(visitor, let_stmt.initializer());
+                if let Some(block) = let_stmt.let_else().and_then(|it| it.block_expr()) {
+                    visitor.visit_block(&block);
+                }
+            }
+            ast::Stmt::Item(_) => (),
         };
-
-        if let Some(expr) = expr {
-            visitor.visit_expr(&expr);
-        }
     }
     let Some(expr) = stmt_list.tail_expr() else {
         return;
@@ -152,6 +159,7 @@ pub fn walk_call<V: Visitor>(visitor: &mut V, expr: &ast::CallExpr) {
 }
 
 pub fn walk_if_expr<V: Visitor>(visitor: &mut V, if_expr: &ast::IfExpr) {
+    visit_sub_expr_opt!(visitor, if_expr.condition());
     if let Some(expr) = if_expr.then_branch() {
         visitor.visit_block(&expr);
     }
-- 
2.43.0


From 560683545afb317631bcc6e22eb823806bcbd565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 40/66] fix: only migrate host function calls chained to the
 environment accessor

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 247e34d..441ff6c 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -225,10 +225,11 @@ impl Visitor for BodyVisitor {
                         .name_ref()
                         .is_some_and(|name| name.to_string() == "env")
             });
-        if !is_self_env_call {
+        if is_self_env_call {
+            chained_env_host_fn_call(&mut self.results, expr.syntax());
+        } else {
             walk_method_call(self, expr);
         }
-        chained_env_host_fn_call(&mut self.results, expr.syntax());
     }
 }
 
-- 
2.43.0


From 427ad915e1f110c50814e6d718919fea0e737a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 41/66] fix: migrate host function calls inside arguments and
 don't repeat instantiate_v1 calls

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 441ff6c..490262a 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -142,10 +142,16 @@ impl Visitor for BodyVisitor {
             return;
         };
 
+        // Migrate calls inside the arguments (if any).
+        walk_call(self, expr);
+
         // Migrate host function wrapper APIs.
         match host_fn_wrapper_path {
-            // Add `.instantiate_v1(..)` to `build_create::<..>(..)`.
+            // Add `.instantiate_v1(..)` to `build_create::<..>(..)` (if it's not already present).
             HostFnWrapper::BuildCreate(_) => {
+                if chained_host_fn_call(expr.syntax(), "instantiate_v1", &[]).is_some() {
+                    return;
+                }
                 self.results.push(TextEdit::insert(
                     ".instantiate_v1()".to_owned(),
                     expr.syntax().text_range().end(),
-- 
2.43.0


From b53043a699d87d9dec7e56afbe58aea55530a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:15 +0000
Subject: [PATCH 42/66] fix: don't emit overlapping or repeated edits for e2e
 test attributes and signatures

---
 .../analyzer/src/analysis/migrate/e2e_test.rs | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 2cafb28..28ce6a1 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 use std::fmt;
 
-use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasName};
+use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
 use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
@@ -37,8 +37,7 @@ pub fn migrate(results: &mut Vec<TextEdit>, file: &InkFile) {
 /// Computes text edits for migrating ink! e2e test attributes to ink! 5.0.
 fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if e2e_test.environment_arg().is_none()
-        && (e2e_test.additional_contracts_arg().is_some()
-            || e2e_test.additional_contracts_arg().is_some())
+        && (e2e_test.additional_contracts_arg().is_some() || e2e_test.keep_attr_arg().is_some())
     {
         // Remove all attribute arguments if the ink! e2e attribute has either an
         // `additional_contracts` and/or `keep_attr` argument but no `environment` argument.
@@ -47,14 +46,21 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         }
     } else {
         // Remove `additional_contracts` argument (if any).
+        let mut last_range = None;
         if let Some(arg) = e2e_test.additional_contracts_arg() {
             let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
+            last_range = Some(range);
             results.push(TextEdit::delete(range));
         }
 
         // Remove `keep_attr` argument (if any).
         if let Some(arg) = e2e_test.keep_attr_arg() {
-            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
+            let mut range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
+            if let Some(last_range) = last_range.filter(|it| it.intersect(range).is_some()) {
+                // Merges the edits if the arguments share a delimiter.
+                results.pop();
+                range = range.cover(last_range);
+            }
             results.push(TextEdit::delete(range));
         }
     }
@@ -62,7 +68,11 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
 /// Computes text edits for migrating ink! e2e test function signatures to ink! 5.0.
 fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
-    if let Some(fn_item) = e2e_test.fn_item() {
+    // NOTE: ink! 4.x e2e test `fn`s can't be generic, so a generic `fn` is already migrated.
+    if let Some(fn_item) = e2e_test
+        .fn_item()
+        .filter(|fn_item| fn_item.generic_param_list().is_none())
+    {
         // Edit range for `fn` parameter list.
         let range = fn_item
             .param_list()
-- 
2.43.0


From 57e682003d4a4b6a83f2d0a768de080e3b8646f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:22 +0000
Subject: [PATCH 43/66] fix: compute migration edits in a deterministic order

---
 crates/analyzer/src/analysis/migrate.rs          | 4 ++--
 crates/analyzer/src/analysis/migrate/e2e_test.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 78803bf..0bf3ebe 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -9,7 +9,7 @@ use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
 use ink_analyzer_ir::{ast, ChainExtension, InkArg, InkArgKind, InkEntity, InkFile, IsInkStruct};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::{utils, TextEdit};
 use crate::analysis::text_edit::format_edits;
@@ -152,7 +152,7 @@ fn chain_extensions(results: &mut Vec<TextEdit>, file: &InkFile) {
 fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
     // Mapping from target item (via location/start offset) to scale traits to derive and their insert offset.
     // Used to consolidate scale item traits from multiple attributes into a single new `scale_derive` attribute.
-    let mut scale_items_map: HashMap<TextSize, (TextSize, Vec<InkArgKind>)> = HashMap::new();
+    let mut scale_items_map: BTreeMap<TextSize, (TextSize, Vec<InkArgKind>)> = BTreeMap::new();
     let scale_trait_options: [(&str, &[&str], InkArgKind); 3] = [
         ("Encode", &resolution::SCALE_QUALIFIERS, InkArgKind::Encode),
         ("Decode", &resolution::SCALE_QUALIFIERS, InkArgKind::Decode),
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 28ce6a1..87683ce 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -1,6 +1,6 @@
 //! ink! 5.0 e2e test migration.
 
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::fmt;
 
 use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
@@ -93,7 +93,7 @@ fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 }
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 enum E2ETrait {
     Contracts,
     Chain,
@@ -317,14 +317,14 @@ fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
 struct BodyVisitor {
     results: Vec<TextEdit>,
-    required_traits: HashSet<E2ETrait>,
+    required_traits: BTreeSet<E2ETrait>,
 }
 
 impl BodyVisitor {
     fn new() -> Self {
         Self {
             results: Vec::new(),
-            required_traits: HashSet::new(),
+            required_traits: BTreeSet::new(),
         }
     }
 }
-- 
2.43.0


From 7bbf72bb7ec65b4bda3f84325e81acf468178c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 44/66] fix: insert imports after inner attributes and don't
 repeat e2e trait imports

---
 .../analyzer/src/analysis/migrate/e2e_test.rs | 27 +++++++++++++++----
 crates/analyzer/src/analysis/utils.rs         | 16 +++++++++++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 87683ce..bdb2218 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -1,10 +1,10 @@
 //! ink! 5.0 e2e test migration.
 
-use std::collections::BTreeSet;
+use std::collections::{BTreeSet, HashSet};
 use std::fmt;
 
 use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
-use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
+use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxNode, TextRange};
 use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
 
@@ -122,6 +122,7 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         return;
     }
     let mut insert_offset_and_indent = None;
+    let mut existing_imports = HashSet::new();
     let parent_item = ink_analyzer_ir::parent_ast_item(e2e_test.syntax());
     if parent_item.is_none() {
         // Insert trait imports in file root if e2e test `fn` has no parent item.
@@ -133,15 +134,19 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         {
             let insert_offset = file_root
                 .doc_comments()
-                .last()
-                .as_ref()
                 .map(|comment| comment.syntax().text_range().end())
+                .chain(utils::inner_attrs_end(file_root.syntax()))
+                .max()
                 .unwrap_or_else(|| file_root.syntax().text_range().start());
             insert_offset_and_indent = Some((insert_offset, String::new()));
+            existing_imports = imports(file_root.syntax());
         }
     } else {
         // Alternatively, insert trait imports in parent `mod` item of e2e test `fn` (if any).
         if let Some(ast::Item::Module(mod_item)) = parent_item {
+            if let Some(item_list) = mod_item.item_list() {
+                existing_imports = imports(item_list.syntax());
+            }
             insert_offset_and_indent = mod_item
                 .item_list()
                 .as_ref()
@@ -175,7 +180,11 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 
     if let Some((insert_offset, indent)) = insert_offset_and_indent {
-        for e2e_trait in visitor.required_traits {
+        for e2e_trait in visitor
+            .required_traits
+            .iter()
+            .filter(|e2e_trait| !existing_imports.contains(&format!("use {e2e_trait};")))
+        {
             results.push(TextEdit::insert(
                 format!("\n{indent}use {e2e_trait};"),
                 insert_offset,
@@ -184,6 +193,14 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 }
 
+/// Returns the (simple) use declarations that are direct children of the node.
+fn imports(node: &SyntaxNode) -> HashSet<String> {
+    node.children()
+        .filter_map(ast::Use::cast)
+        .map(|use_item| use_item.to_string())
+        .collect()
+}
+
 /// Computes text edits for removing use declarations of ink! e2e items deprecated in ink! 5.0.
 fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if let Some(fn_item) = e2e_test.fn_item() {
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 6c26876..e887c82 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1682,6 +1682,8 @@ pub fn item_insert_offset_start(item_list: &ast::ItemList) -> TextSize {
         .filter(|it| matches!(it, ast::Item::Use(_)))
         .last()
         .map(|it| it.syntax().text_range().end())
+        // Determines position after the last inner attribute or inner doc comment.
+        .or_else(|| inner_attrs_end(item_list.syntax()))
         // Determines position after the left curly bracket.
         .or_else(|| item_list.l_curly_token().map(|it| it.text_range().end()))
         // Defaults to inserts before the first item in the item list.
@@ -1694,6 +1696,20 @@ pub fn item_insert_offset_start(item_list: &ast::ItemList) -> TextSize {
         .unwrap_or(item_list.syntax().text_range().start())
 }
 
+/// Returns the end of the last inner attribute or inner doc comment of a node (if any).
+pub fn inner_attrs_end(node: &SyntaxNode) -> Option<TextSize> {
+    node.children_with_tokens()
+        .filter(|elem| match elem {
+            SyntaxElement::Node(node) => {
+                ast::Attr::cast(node.clone()).is_some_and(|attr| attr.excl_token().is_some())
+            }
+            SyntaxElement::Token(token) => ast::Comment::cast(token.clone())
+                .is_some_and(|comment| comment.is_doc() && comment.is_inner()),
+        })
+        .last()
+        .map(|elem| elem.text_range().end())
+}
+
 /// Returns the offset for the end of an item list (e.g body of an AST item - i.e `mod` e.t.c).
 pub fn item_insert_offset_end(item_list: &ast::ItemList) -> TextSize {
     item_list
-- 
2.43.0


From f06bbdebd4805c5768c91644a27bb4895c83488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:05 +0000
Subject: [PATCH 45/66] fix: migrate calls nested in e2e client call arguments

---
 .../analyzer/src/analysis/migrate/common.rs   |  21 ++-
 .../analyzer/src/analysis/migrate/e2e_test.rs | 130 ++++++++++--------
 2 files changed, 89 insertions(+), 62 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/common.rs b/crates/analyzer/src/analysis/migrate/common.rs
index d5c72a1..15e62d1 100644
--- a/crates/analyzer/src/analysis/migrate/common.rs
+++ b/crates/analyzer/src/analysis/migrate/common.rs
@@ -3,7 +3,26 @@
 use ink_analyzer_ir::ast;
 use ink_analyzer_ir::syntax::SyntaxNode;
 
-use crate::resolution;
+use crate::{resolution, TextEdit};
+
+/// Returns the text of the node after applying (and removing from the list) all edits inside it.
+pub fn take_edited_text(node: &SyntaxNode, edits: &mut Vec<TextEdit>) -> String {
+    let range = node.text_range();
+    let (mut nested_edits, other_edits): (Vec<_>, Vec<_>) = edits
+        .drain(..)
+        .partition(|edit| range.contains_range(edit.range));
+    *edits = other_edits;
+
+    // Applies edits from the end (for edits at the same offset, the last edit is applied first).
+    nested_edits.sort_by_key(|edit| (edit.range.start(), edit.range.end()));
+    let mut text = node.to_string();
+    for edit in nested_edits.into_iter().rev() {
+        let start = usize::from(edit.range.start() - range.start());
+        let end = usize::from(edit.range.end() - range.start());
+        text.replace_range(start..end, &edit.text);
+    }
+    text
+}
 
 pub fn last_segment_generic_args(path: &ast::Path) -> Option<ast::GenericArgList> {
     path.segment()
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index bdb2218..d041c72 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -112,7 +112,12 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         return;
     };
 
+    // Starts with other edits inside the body, because they may become part of larger edits.
     let mut visitor = BodyVisitor::new();
+    let body_range = body.syntax().text_range();
+    (visitor.results, *results) = results
+        .drain(..)
+        .partition(|edit| body_range.contains_range(edit.range));
     visitor.visit_block(&body);
 
     results.extend(visitor.results);
@@ -344,6 +349,49 @@ impl BodyVisitor {
             required_traits: BTreeSet::new(),
         }
     }
+
+    /// Returns the text for an expression, including any edits inside it.
+    fn take_edited_text(&mut self, expr: &ast::Expr) -> String {
+        common::take_edited_text(expr.syntax(), &mut self.results)
+    }
+
+    fn value_call(&mut self, expr: &ast::Expr) -> Option<String> {
+        let mut is_zero = false;
+        if let ast::Expr::Literal(ref lit) = expr {
+            if let ast::LiteralKind::IntNumber(int) = lit.kind() {
+                if let Ok(value) = int.value() {
+                    is_zero = value == 0;
+                }
+            }
+        }
+        (!is_zero).then(|| format!(".value({})", self.take_edited_text(expr)))
+    }
+
+    fn storage_deposit_limit_call(&mut self, expr: &ast::Expr) -> Option<String> {
+        let mut is_none = false;
+        if let ast::Expr::PathExpr(ref path) = expr {
+            is_none = matches!(path.to_string().as_str(), "None" | "Option::None");
+        }
+        (!is_none).then(|| {
+            let mut storage_deposit_limit_value = None;
+            if let ast::Expr::CallExpr(ref call) = expr {
+                if let Some(ast::Expr::PathExpr(path)) = call.expr() {
+                    if matches!(path.to_string().as_str(), "Some" | "Option::Some") {
+                        storage_deposit_limit_value = call
+                            .arg_list()
+                            .as_ref()
+                            .map(ast::ArgList::args)
+                            .and_then(|mut args| args.next())
+                            .map(|arg| self.take_edited_text(&arg));
+                    }
+                }
+            }
+            format!(
+                ".storage_deposit_limit({})",
+                storage_deposit_limit_value.unwrap_or_else(|| self.take_edited_text(expr))
+            )
+        })
+    }
 }
 
 impl Visitor for BodyVisitor {
@@ -463,19 +511,9 @@ impl Visitor for BodyVisitor {
     }
 
     fn visit_method_call(&mut self, expr: &ast::MethodCallExpr) {
-        let is_client_receiver = expr
-            .receiver()
-            .and_then(|receiver| match receiver {
-                ast::Expr::PathExpr(path) => Some(path),
-                _ => None,
-            })
-            .is_some_and(|receiver| receiver.to_string() == "client");
-        if !is_client_receiver {
-            walk_method_call(self, expr);
-        }
+        walk_method_call(self, expr);
 
         let Some(method_name) = expr.name_ref() else {
-            walk_method_call(self, expr);
             return;
         };
         let Some(arg_list) = expr.arg_list() else {
@@ -488,13 +526,17 @@ impl Visitor for BodyVisitor {
                 if let Some((contract_name, signer, constructor, value, storage_deposit_limit)) =
                     args.collect_tuple()
                 {
+                    let contract_name = self.take_edited_text(&contract_name);
+                    let signer = self.take_edited_text(&signer);
+                    let constructor = self.take_edited_text(&constructor);
+                    let value = self.value_call(&value);
+                    let storage_deposit_limit =
+                        self.storage_deposit_limit_call(&storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}, {constructor}){}{}{}",
-                            value_call(&value).as_deref().unwrap_or_default(),
-                            storage_deposit_limit_call(&storage_deposit_limit)
-                                .as_deref()
-                                .unwrap_or_default(),
+                            value.as_deref().unwrap_or_default(),
+                            storage_deposit_limit.as_deref().unwrap_or_default(),
                             if name == "instantiate_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -514,13 +556,16 @@ impl Visitor for BodyVisitor {
             name @ ("call" | "call_dry_run") => {
                 if let Some((signer, message, value, storage_deposit_limit)) = args.collect_tuple()
                 {
+                    let signer = self.take_edited_text(&signer);
+                    let message = self.take_edited_text(&message);
+                    let value = self.value_call(&value);
+                    let storage_deposit_limit =
+                        self.storage_deposit_limit_call(&storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({signer}, {message}){}{}{}",
-                            value_call(&value).as_deref().unwrap_or_default(),
-                            storage_deposit_limit_call(&storage_deposit_limit)
-                                .as_deref()
-                                .unwrap_or_default(),
+                            value.as_deref().unwrap_or_default(),
+                            storage_deposit_limit.as_deref().unwrap_or_default(),
                             if name == "call_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -539,12 +584,14 @@ impl Visitor for BodyVisitor {
             }
             "upload" => {
                 if let Some((contract_name, signer, storage_deposit_limit)) = args.collect_tuple() {
+                    let contract_name = self.take_edited_text(&contract_name);
+                    let signer = self.take_edited_text(&signer);
+                    let storage_deposit_limit =
+                        self.storage_deposit_limit_call(&storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}){}.submit()",
-                            storage_deposit_limit_call(&storage_deposit_limit)
-                                .as_deref()
-                                .unwrap_or_default(),
+                            storage_deposit_limit.as_deref().unwrap_or_default(),
                         ),
                         arg_list.syntax().text_range(),
                     ));
@@ -575,45 +622,6 @@ impl Visitor for BodyVisitor {
             _ => (),
         }
 
-        fn value_call(expr: &ast::Expr) -> Option<String> {
-            let mut is_zero = false;
-            if let ast::Expr::Literal(ref lit) = expr {
-                if let ast::LiteralKind::IntNumber(int) = lit.kind() {
-                    if let Ok(value) = int.value() {
-                        is_zero = value == 0;
-                    }
-                }
-            }
-            (!is_zero).then_some(format!(".value({expr})"))
-        }
-
-        fn storage_deposit_limit_call(expr: &ast::Expr) -> Option<String> {
-            let mut is_none = false;
-            if let ast::Expr::PathExpr(ref path) = expr {
-                is_none = matches!(path.to_string().as_str(), "None" | "Option::None");
-            }
-            (!is_none).then(|| {
-                let mut storage_deposit_limit_value = None;
-                if let ast::Expr::CallExpr(ref call) = expr {
-                    if let Some(ast::Expr::PathExpr(path)) = call.expr() {
-                        if matches!(path.to_string().as_str(), "Some" | "Option::Some") {
-                            storage_deposit_limit_value = call
-                                .arg_list()
-                                .as_ref()
-                                .map(ast::ArgList::args)
-                                .and_then(|mut args| args.next())
-                                .as_ref()
-                                .map(ToString::to_string);
-                        }
-                    }
-                }
-                format!(
-                    ".storage_deposit_limit({})",
-                    storage_deposit_limit_value.unwrap_or_else(|| { expr.to_string() })
-                )
-            })
-        }
-
         fn unwrap_dry_run_result(results: &mut Vec<TextEdit>, expr: &ast::MethodCallExpr) {
             if let Some(await_expr) = expr.syntax().parent().and_then(ast::AwaitExpr::cast) {
                 results.push(TextEdit::insert(
-- 
2.43.0


From d7077038e98a09f32f77d4b2298af8b8fa879e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:08 +0000
Subject: [PATCH 46/66] fix: merge derive edits of legacy events into migrated
 events

---
 crates/analyzer/src/analysis/migrate.rs | 30 +++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 0bf3ebe..6ca9b7c 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -19,15 +19,16 @@ use crate::resolution;
 pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     let mut results = Vec::new();
 
+    // Migrate built-in `derive`s of SCALE codec traits.
+    scale_derive(&mut results, file);
+
     // Migrate events.
+    // NOTE: Existing edits inside legacy events (e.g. for `derive`s) become part of the migrated events.
     events(&mut results, file);
 
     // Migrate chain extensions.
     chain_extensions(&mut results, file);
 
-    // Migrate built-in `derive`s of SCALE codec traits.
-    scale_derive(&mut results, file);
-
     // Migrate cross-contract host function related APIs.
     host_fn::migrate(&mut results, file);
 
@@ -40,6 +41,7 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
 
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
 fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
+    let mut event_results = Vec::new();
     for contract in file.contracts() {
         let contract_indent = utils::item_indenting(contract.syntax());
         let use_insert_offset = contract
@@ -51,10 +53,8 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
         for event in contract.events() {
             if let Some(ink_attr) = event.ink_attr() {
                 // Replace legacy event with event 2.0.
-                let mut code = event.syntax().to_string();
-                code = code.replace(
-                    &ink_attr.syntax().to_string(),
-                    &format!(
+                results.push(TextEdit::replace(
+                    format!(
                         "#[ink::event{}]",
                         if event.anonymous_arg().is_some() {
                             "(anonymous)"
@@ -62,7 +62,8 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                             ""
                         }
                     ),
-                );
+                    ink_attr.syntax().text_range(),
+                ));
 
                 // Remove standalone `anonymous` attribute (if any).
                 if let Some(arg) = event.anonymous_arg() {
@@ -72,10 +73,11 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                         .contains_range(arg.text_range())
                     {
                         if let Some(anonymous_attr) = arg.parent_attr() {
-                            code = code.replace(&anonymous_attr.syntax().to_string(), "");
+                            results.push(TextEdit::delete(anonymous_attr.syntax().text_range()));
                         }
                     }
                 }
+                let mut code = common::take_edited_text(event.syntax(), results);
 
                 // Update indenting.
                 if let Some(indent) = utils::item_indenting(event.syntax()) {
@@ -86,7 +88,7 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                 }
 
                 // Insert event 2.0 before contract.
-                results.push(TextEdit::insert(
+                event_results.push(TextEdit::insert(
                     code,
                     contract.syntax().text_range().start(),
                 ));
@@ -94,17 +96,18 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                 // Add event 2.0 import.
                 let event_name = event.struct_item().and_then(ast::Struct::name);
                 if let Some((use_insert_offset, event_name)) = use_insert_offset.zip(event_name) {
-                    results.push(TextEdit::insert(
+                    event_results.push(TextEdit::insert(
                         format!("use super::{event_name};"),
                         use_insert_offset,
                     ));
                 }
 
                 // Remove legacy event.
-                results.push(TextEdit::delete(event.syntax().text_range()));
+                event_results.push(TextEdit::delete(event.syntax().text_range()));
             }
         }
     }
+    results.extend(event_results);
 }
 
 /// Computes text edits for migrating ink! chain extension to ink! 5.0.
@@ -205,6 +208,9 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
             for name in utils::token_tree_to_non_delimited_meta_string(&derive_meta)
                 .replace(' ', "")
                 .split(',')
+                .map(str::trim)
+                // Ignores trailing delimiters.
+                .filter(|name| !name.is_empty())
             {
                 if let Some(path) = ink_analyzer_ir::path_from_str(name) {
                     let ref_node = attr
-- 
2.43.0


From fea0b15cf161d4b8a6e66a53ddfee7ae550212de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 47/66] fix: migrate calls nested in message builder callbacks

---
 .../analyzer/src/analysis/migrate/common.rs   |   6 +
 .../analyzer/src/analysis/migrate/e2e_test.rs | 166 ++++++++++--------
 2 files changed, 95 insertions(+), 77 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/common.rs b/crates/analyzer/src/analysis/migrate/common.rs
index 15e62d1..076501d 100644
--- a/crates/analyzer/src/analysis/migrate/common.rs
+++ b/crates/analyzer/src/analysis/migrate/common.rs
@@ -16,7 +16,13 @@ pub fn take_edited_text(node: &SyntaxNode, edits: &mut Vec<TextEdit>) -> String
     // Applies edits from the end (for edits at the same offset, the last edit is applied first).
     nested_edits.sort_by_key(|edit| (edit.range.start(), edit.range.end()));
     let mut text = node.to_string();
+    let mut last_start = range.end();
     for edit in nested_edits.into_iter().rev() {
+        if last_start < edit.range.end() {
+            // Ignores overlapping edits.
+            continue;
+        }
+        last_start = edit.range.start();
         let start = usize::from(edit.range.start() - range.start());
         let end = usize::from(edit.range.end() - range.start());
         text.replace_range(start..end, &edit.text);
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index d041c72..bd5742a 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -355,6 +355,85 @@ impl BodyVisitor {
         common::take_edited_text(expr.syntax(), &mut self.results)
     }
 
+    /// Replace `.call(|contract| contract.message(..))` with `.message(..)`
+    /// (for `build_message::<..>(..)` and `MessageBuilder<..>::from_account_id(..)` calls).
+    fn message_call(&mut self, call_method: &ast::MethodCallExpr) {
+        let Some(call_method_name) = call_method
+            .name_ref()
+            .filter(|method_name| method_name.to_string() == "call")
+        else {
+            return;
+        };
+        let Some(call_method_args) = call_method
+            .arg_list()
+            .as_ref()
+            .map(ast::ArgList::args)
+        else {
+            return;
+        };
+        let Some((ast::Expr::ClosureExpr(callback),)) = call_method_args.collect_tuple()
+        else {
+            return;
+        };
+        let Some(callback_body) = callback.body() else {
+            return;
+        };
+        let Some(contract_call) = last_method_call(&callback_body) else {
+            return;
+        };
+        let Some(contract_call_name) = contract_call.name_ref() else {
+            return;
+        };
+        let contract_call_args = contract_call
+            .arg_list()
+            .map(|arg_list| common::take_edited_text(arg_list.syntax(), &mut self.results));
+        let range = TextRange::new(
+            call_method_name.syntax().text_range().start(),
+            call_method.syntax().text_range().end(),
+        );
+        self.results
+            .retain(|edit| !range.contains_range(edit.range));
+        self.results.push(TextEdit::replace(
+            format!(
+                "{}{}",
+                contract_call_name,
+                contract_call_args.as_deref().unwrap_or("()")
+            ),
+            range,
+        ));
+
+        fn last_method_call(expr: &ast::Expr) -> Option<ast::MethodCallExpr> {
+            match expr {
+                ast::Expr::MethodCallExpr(method_call) => Some(method_call.clone()),
+                ast::Expr::BlockExpr(body) => {
+                    // Only handles tail expr or returned expr.
+                    let returned_expr = || {
+                        body.stmt_list()
+                            .as_ref()
+                            .map(ast::StmtList::statements)
+                            .and_then(|mut stmts| stmts.next())
+                            .and_then(|stmt| match stmt {
+                                ast::Stmt::ExprStmt(expr) => expr.expr(),
+                                _ => None,
+                            })
+                            .and_then(|expr| match expr {
+                                ast::Expr::ReturnExpr(return_expr) => return_expr.expr(),
+                                _ => None,
+                            })
+                    };
+                    body.tail_expr()
+                        .or_else(returned_expr)
+                        .as_ref()
+                        .and_then(last_method_call)
+                }
+                ast::Expr::ReturnExpr(return_expr) => {
+                    return_expr.expr().as_ref().and_then(last_method_call)
+                }
+                _ => None,
+            }
+        }
+    }
+
     fn value_call(&mut self, expr: &ast::Expr) -> Option<String> {
         let mut is_zero = false;
         if let ast::Expr::Literal(ref lit) = expr {
@@ -431,88 +510,21 @@ impl Visitor for BodyVisitor {
             call_path.syntax().text_range(),
         ));
 
-        // Replace `.call(|contract| contract.message(..))` with `.message(..)`.
-        let Some(chained_call_method) = expr.syntax().parent().and_then(ast::MethodCallExpr::cast)
-        else {
-            return;
-        };
-        let Some(chained_call_method_name) = chained_call_method
-            .name_ref()
-            .filter(|method_name| method_name.to_string() == "call")
-        else {
-            return;
-        };
-        let Some(chained_call_method_args) = chained_call_method
-            .arg_list()
-            .as_ref()
-            .map(ast::ArgList::args)
-        else {
-            return;
-        };
-        let Some((ast::Expr::ClosureExpr(callback),)) = chained_call_method_args.collect_tuple()
-        else {
-            return;
-        };
-        let Some(callback_body) = callback.body() else {
-            return;
-        };
-        let Some(contract_call) = last_method_call(&callback_body) else {
-            return;
-        };
-        let Some(contract_call_name) = contract_call.name_ref() else {
-            return;
-        };
-        self.results.push(TextEdit::replace(
-            format!(
-                "{}{}",
-                contract_call_name,
-                contract_call
-                    .arg_list()
-                    .as_ref()
-                    .map(ToString::to_string)
-                    .unwrap_or_else(|| "()".to_owned())
-            ),
-            TextRange::new(
-                chained_call_method_name.syntax().text_range().start(),
-                chained_call_method.syntax().text_range().end(),
-            ),
-        ));
-
-        fn last_method_call(expr: &ast::Expr) -> Option<ast::MethodCallExpr> {
-            match expr {
-                ast::Expr::MethodCallExpr(method_call) => Some(method_call.clone()),
-                ast::Expr::BlockExpr(body) => {
-                    // Only handles tail expr or returned expr.
-                    let returned_expr = || {
-                        body.stmt_list()
-                            .as_ref()
-                            .map(ast::StmtList::statements)
-                            .and_then(|mut stmts| stmts.next())
-                            .and_then(|stmt| match stmt {
-                                ast::Stmt::ExprStmt(expr) => expr.expr(),
-                                _ => None,
-                            })
-                            .and_then(|expr| match expr {
-                                ast::Expr::ReturnExpr(return_expr) => return_expr.expr(),
-                                _ => None,
-                            })
-                    };
-                    body.tail_expr()
-                        .or_else(returned_expr)
-                        .as_ref()
-                        .and_then(last_method_call)
-                }
-                ast::Expr::ReturnExpr(return_expr) => {
-                    return_expr.expr().as_ref().and_then(last_method_call)
-                }
-                _ => None,
-            }
-        }
+        // Migrate calls inside the arguments (if any).
+        walk_call(self, expr);
     }
 
     fn visit_method_call(&mut self, expr: &ast::MethodCallExpr) {
         walk_method_call(self, expr);
 
+        let is_message_builder_receiver = expr.receiver().is_some_and(|receiver| {
+            matches!(&receiver, ast::Expr::CallExpr(call) if MessageBuilderCall::parse(call).is_some())
+        });
+        if is_message_builder_receiver {
+            self.message_call(expr);
+            return;
+        }
+
         let Some(method_name) = expr.name_ref() else {
             return;
         };
-- 
2.43.0


From 7c25c84323ca29d5797d5f9214462abe900aa4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:06 +0000
Subject: [PATCH 48/66] fix: keep e2e import edits apart from removed imports
 and edits of the first item

---
 crates/analyzer/src/analysis/migrate.rs          | 13 +++++++------
 crates/analyzer/src/analysis/migrate/e2e_test.rs | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 6ca9b7c..86a5ce4 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -19,6 +19,13 @@ use crate::resolution;
 pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     let mut results = Vec::new();
 
+    // Migrate cross-contract host function related APIs.
+    host_fn::migrate(&mut results, file);
+
+    // Migrate e2e tests.
+    // NOTE: May add imports to the start of the file, so these edits need to come before edits for other items.
+    e2e_test::migrate(&mut results, file);
+
     // Migrate built-in `derive`s of SCALE codec traits.
     scale_derive(&mut results, file);
 
@@ -29,12 +36,6 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     // Migrate chain extensions.
     chain_extensions(&mut results, file);
 
-    // Migrate cross-contract host function related APIs.
-    host_fn::migrate(&mut results, file);
-
-    // Migrate e2e tests.
-    e2e_test::migrate(&mut results, file);
-
     // Format and return edits.
     format_edits(results.into_iter().unique(), file).collect()
 }
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index bd5742a..87204b8 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -32,6 +32,21 @@ pub fn migrate(results: &mut Vec<TextEdit>, file: &InkFile) {
         // Remove deprecated imports.
         deprecated_imports(results, e2e_test);
     }
+
+    // Ensures that new imports don't overlap with removed ones.
+    let removed: Vec<_> = results
+        .iter()
+        .filter(|edit| edit.text.is_empty())
+        .map(|edit| edit.range)
+        .collect();
+    for edit in results.iter_mut().filter(|edit| edit.range.is_empty()) {
+        if let Some(range) = removed
+            .iter()
+            .find(|range| range.end() == edit.range.start())
+        {
+            edit.range = TextRange::empty(range.start());
+        }
+    }
 }
 
 /// Computes text edits for migrating ink! e2e test attributes to ink! 5.0.
-- 
2.43.0


From da2560c0f48bbfe733d2f3f0085a5c48bdfb8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:15 +0000
Subject: [PATCH 49/66] fix: keep diagnostics without quickfixes that only
 differ in their message

---
 crates/analyzer/src/analysis/diagnostics.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics.rs b/crates/analyzer/src/analysis/diagnostics.rs
index 09152db..dee7922 100644
--- a/crates/analyzer/src/analysis/diagnostics.rs
+++ b/crates/analyzer/src/analysis/diagnostics.rs
@@ -73,13 +73,16 @@ pub fn diagnostics(file: &InkFile, version: Version) -> Vec<Diagnostic> {
     file::diagnostics(&mut results, file, version);
     results
         .into_iter()
-        // Deduplicate by range, severity and quickfix edits.
+        // Deduplicate by range, severity and quickfix edits (or message, if there are no quickfix edits).
         .unique_by(|item| {
-            let quickfix_edits: Option<Vec<TextEdit>> = item
+            let quickfix_edits: Vec<TextEdit> = item
                 .quickfixes
-                .as_ref()
-                .map(|it| it.iter().flat_map(|it| it.edits.clone()).collect());
-            (item.range, item.severity, quickfix_edits)
+                .iter()
+                .flatten()
+                .flat_map(|it| it.edits.clone())
+                .collect();
+            let message = quickfix_edits.is_empty().then(|| item.message.clone());
+            (item.range, item.severity, quickfix_edits, message)
         })
         // Format edits.
         .map(|diagnostic| Diagnostic {
-- 
2.43.0


From 91fcbb43f1c3487db6ce970e0cd6d0002ab753e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:03 +0000
Subject: [PATCH 50/66] fix: keep other configuration when migrating a manifest

---
 .../src/dispatch/handlers/command.rs          | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 49f91cb..e2de8bb 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -308,6 +308,7 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
     let new_ink_dep_value = match ink_dep {
         toml_edit::Item::Table(ink_dep_value) => {
             let mut new_ink_dep_value = ink_dep_value.clone();
+            new_ink_dep_value.remove("workspace");
             new_ink_dep_value.insert(
                 "version",
                 toml_edit::Item::Value(toml_edit::Value::from("5.0.0")),
@@ -322,6 +323,7 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
         }
         toml_edit::Item::Value(toml_edit::Value::InlineTable(ink_dep_value)) => {
             let mut new_ink_dep_value = ink_dep_value.clone();
+            new_ink_dep_value.remove("workspace");
             new_ink_dep_value.insert("version", toml_edit::Value::from("5.0.0"));
             if !new_ink_dep_value.contains_key("default-features") {
                 new_ink_dep_value.insert("default-features", toml_edit::Value::from(false));
@@ -351,7 +353,21 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
         .and_then(toml_edit::Item::as_table_mut)
     {
         if let Some(ink_e2e_dep) = dev_deps.get_mut("ink_e2e") {
-            *ink_e2e_dep = toml_edit::Item::Value(toml_edit::Value::from("5.0.0"));
+            let version = toml_edit::Item::Value(toml_edit::Value::from("5.0.0"));
+            // Keeps other configuration (e.g. features) if any.
+            let has_other_config = |table: &&mut dyn toml_edit::TableLike| {
+                table
+                    .iter()
+                    .any(|(key, _)| !matches!(key, "version" | "workspace"))
+            };
+            if let Some(ink_e2e_dep_table) =
+                ink_e2e_dep.as_table_like_mut().filter(has_other_config)
+            {
+                ink_e2e_dep_table.remove("workspace");
+                ink_e2e_dep_table.insert("version", version);
+            } else {
+                *ink_e2e_dep = version;
+            }
         }
     }
 
@@ -360,13 +376,12 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
         .get_mut("features")
         .and_then(toml_edit::Item::as_table_mut)
     {
-        if let Some(std_features) = features
-            .get_mut("std")
-            .and_then(toml_edit::Item::as_array_mut)
-        {
-            std_features.retain(|feature| {
-                !matches!(feature.as_str(), Some("scale/std" | "scale-info/std"))
-            });
+        for (_, feature_item) in features.iter_mut() {
+            if let Some(feature_list) = feature_item.as_array_mut() {
+                feature_list.retain(|feature| {
+                    !matches!(feature.as_str(), Some("scale/std" | "scale-info/std"))
+                });
+            }
         }
     }
 
-- 
2.43.0


From f933f90dfbec0b65d7378720622adfba1e50fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:03 +0000
Subject: [PATCH 51/66] fix: don't overwrite an existing dependency when
 extracting an event

---
 crates/lsp-server/src/dispatch/handlers/command.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index e2de8bb..11acab5 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -404,6 +404,13 @@ fn add_dependency_to_cargo_toml(
         return Err(anyhow::format_err!("Failed to parse `TOML` file."));
     };
 
+    // Ensures that existing dependencies aren't overwritten.
+    if deps.contains_key(name) {
+        return Err(anyhow::format_err!(
+            "A dependency named `{name}` already exists in the `Cargo.toml` file."
+        ));
+    }
+
     // Adds dependency item.
     deps.insert(name, item);
 
-- 
2.43.0


From 54bb479bcc96166e6ed4dd054d585b3cec12adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:47 +0000
Subject: [PATCH 52/66] fix: find the workspace root for workspace-inherited
 ink! dependencies

---
 crates/lsp-server/src/dispatch.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index d1e6564..d22143a 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -429,15 +429,19 @@ fn parse_ink_project_version(doc_uri: &lsp_types::Url) -> Option<InkProjectVersi
                 let is_workspace_dependency =
                     project_version.as_ref().is_some_and(|it| it.workspace);
                 if is_workspace_dependency {
-                    // Finds `Cargo.toml` in workspace root directory (if any).
-                    let mut parent_dir = cargo_toml_path.clone();
-                    parent_dir.pop();
-                    if let Some(workspace_cargo_toml_path) = utils::find_cargo_toml(parent_dir) {
+                    // Finds `Cargo.toml` for workspace root (if any),
+                    // NOTE: the package's own `Cargo.toml` file can also be the workspace root.
+                    let mut workspace_cargo_toml_path = Some(cargo_toml_path);
+                    while let Some(path) = workspace_cargo_toml_path {
                         let workspace_project_version =
-                            parse_ink_project_version_inner(&workspace_cargo_toml_path, true);
+                            parse_ink_project_version_inner(&path, true);
                         if workspace_project_version.is_some() {
                             return workspace_project_version;
                         }
+                        let mut parent_dir = path.clone();
+                        parent_dir.pop();
+                        workspace_cargo_toml_path =
+                            utils::find_cargo_toml(parent_dir).filter(|it| *it != path);
                     }
                 }
                 return project_version;
-- 
2.43.0


From 532294ddf4232aad1a75612c9e940f071395397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:47 +0000
Subject: [PATCH 53/66] fix: don't name the package of an extracted event after
 a keyword

---
 .../lsp-server/src/dispatch/handlers/command.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 11acab5..46843ab 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -462,12 +462,16 @@ fn package_name(name: &str) -> anyhow::Result<(String, String)> {
         last_char_is_uppercase = char.is_uppercase();
     }
 
-    let name = buffer
+    let mut name = buffer
         .iter()
         .collect::<String>()
         .to_lowercase()
         .trim_end_matches('-')
         .to_owned();
+    // Rust keywords can't be used as crate names.
+    if RUST_KEYWORDS.contains(&name.as_str()) {
+        name.push_str("-event");
+    }
     let crate_name = name.replace('-', "_");
 
     Ok((name, crate_name))
@@ -544,6 +548,17 @@ impl From<ExtractEventResponse> for lsp_types::DocumentChanges {
     }
 }
 
+/// Strict and reserved Rust keywords.
+///
+/// Ref: <https://doc.rust-lang.org/reference/keywords.html>.
+const RUST_KEYWORDS: [&str; 50] = [
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in",
+    "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
 pub const CARGO_TOML_MINIMAL_V5: &str = r#"[package]
 name = "my_package"
 version = "0.1.0"
-- 
2.43.0


From 5ac962e26e1faf19c7e6fe55fae3a6ef49aa5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:39 +0000
Subject: [PATCH 54/66] fix: don't suggest names already in use for inserted
 ink! entities

---
 .../analyzer/src/analysis/actions/entity.rs   | 23 ++++++-
 .../analyzer/src/analysis/text_edit/common.rs | 69 ++++++++++++++-----
 2 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 91ccb21..5d3042a 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use ink_analyzer_ir::{
-    ast::{self, HasName},
+    ast::{self, HasModuleItem, HasName},
     syntax::{AstNode, TextRange},
     ChainExtension, Constructor, Contract, InkEntity, InkFile, IsInkEvent, IsInkFn, IsInkTrait,
     Message, TraitDefinition, Version,
@@ -194,6 +194,19 @@ fn contract_fn_names(contract: &Contract) -> HashSet<String> {
         .filter_map(Constructor::fn_item)
         .chain(contract.messages().iter().filter_map(Message::fn_item))
         .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
+        // Non-ink! `fn` items in `impl` blocks also make a name unavailable.
+        .chain(
+            contract
+                .module()
+                .and_then(ast::Module::item_list)
+                .into_iter()
+                .flat_map(|item_list| item_list.items())
+                .filter_map(|item| match item {
+                    ast::Item::Impl(impl_item) => Some(impl_item),
+                    _ => None,
+                })
+                .flat_map(|impl_item| text_edit::impl_fn_names(&impl_item)),
+        )
         .collect()
 }
 
@@ -248,8 +261,12 @@ pub fn add_message_selector_to_contract(
     label_option: Option<String>,
 ) -> Option<Action> {
     let names = contract_fn_names(contract);
-    let (mut text, mut snippet) =
-        text_edit::unique_text_and_snippet(MESSAGE_PLAIN, MESSAGE_SNIPPET, fn_name, &names);
+    let (mut text, mut snippet) = text_edit::unique_text_and_snippet(
+        &MESSAGE_PLAIN.replace("my_message", fn_name),
+        &MESSAGE_SNIPPET.replace("my_message", fn_name),
+        fn_name,
+        &names,
+    );
     let selector_attr = format!("#[ink(message, selector = {selector})]");
     text = text.replace("#[ink(message)]", &selector_attr);
     snippet = snippet.replace("#[ink(message)]", &selector_attr);
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 8e53b39..ef66050 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -5,8 +5,8 @@ use std::collections::HashSet;
 use ink_analyzer_ir::ast::{HasModuleItem, HasName};
 use ink_analyzer_ir::syntax::{AstNode, TextRange};
 use ink_analyzer_ir::{
-    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkFn, IsInkTrait, Message,
-    TraitDefinition, Version,
+    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkTrait, TraitDefinition,
+    Version,
 };
 
 use super::{utils, TextEdit};
@@ -72,6 +72,42 @@ macro_rules! mod_item_names {
     };
 }
 
+/// Returns the names of all items in a module that share a namespace with `struct` items.
+fn mod_type_names(module: &ast::Module) -> HashSet<String> {
+    module
+        .item_list()
+        .into_iter()
+        .flat_map(|item_list| {
+            item_list.items().filter_map(|item| match item {
+                ast::Item::Enum(item) => item.name(),
+                ast::Item::Module(item) => item.name(),
+                ast::Item::Struct(item) => item.name(),
+                ast::Item::Trait(item) => item.name(),
+                ast::Item::TypeAlias(item) => item.name(),
+                ast::Item::Union(item) => item.name(),
+                _ => None,
+            })
+        })
+        .map(|name| name.to_string())
+        .collect()
+}
+
+/// Returns the names of all `fn` items in a trait.
+fn trait_fn_names(trait_item: &ast::Trait) -> HashSet<String> {
+    trait_item
+        .assoc_item_list()
+        .into_iter()
+        .flat_map(|assoc_item_list| {
+            assoc_item_list
+                .assoc_items()
+                .filter_map(|assoc_item| match assoc_item {
+                    ast::AssocItem::Fn(fn_item) => fn_item.name().as_ref().map(ToString::to_string),
+                    _ => None,
+                })
+        })
+        .collect()
+}
+
 /// Creates text edit for ink! contract.
 pub fn add_contract(range: TextRange, indent: Option<&str>, version: Version) -> TextEdit {
     text_edit_with_indent(
@@ -94,8 +130,10 @@ pub fn add_contract(range: TextRange, indent: Option<&str>, version: Version) ->
 pub fn add_storage(contract: &Contract, range: TextRange) -> TextEdit {
     // Sets insert indent.
     let indent = utils::item_children_indenting(contract.syntax());
-    // Gets the "resolved" contract name.
-    let contract_name = utils::resolve_contract_name(contract);
+    // Gets the "resolved" contract name (or an alternative if the name is already in use).
+    let names = contract.module().map(mod_type_names).unwrap_or_default();
+    let contract_name = utils::resolve_contract_name(contract)
+        .map(|name| utils::suggest_unique_name(&name, &names));
 
     TextEdit::replace_with_snippet(
         utils::apply_indenting(
@@ -122,7 +160,7 @@ pub fn add_storage(contract: &Contract, range: TextRange) -> TextEdit {
 pub fn add_event_v1(module: &ast::Module, range: TextRange) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(module.syntax());
-    let names = mod_item_names!(module, Struct);
+    let names = mod_type_names(module);
     let (text, snippet) = unique_text_and_snippet(EVENT_PLAIN, EVENT_SNIPPET, "Event", &names);
 
     text_edit_with_indent(
@@ -141,7 +179,7 @@ pub fn add_event_v2(
 ) -> TextEdit {
     // Sets insert indent and suggested name.
     let (text, snippet) = if let Some(module) = module {
-        let names = mod_item_names!(module, Struct);
+        let names = mod_type_names(module);
         unique_text_and_snippet(EVENT_PLAIN_V2, EVENT_SNIPPET_V2, "Event", &names)
     } else {
         (EVENT_PLAIN_V2.to_owned(), EVENT_SNIPPET_V2.to_owned())
@@ -191,7 +229,8 @@ pub fn add_topic(
     )
 }
 
-fn impl_fn_names(impl_item: &ast::Impl) -> HashSet<String> {
+/// Returns the names of all `fn` items in an `impl` block.
+pub fn impl_fn_names(impl_item: &ast::Impl) -> HashSet<String> {
     impl_item
         .assoc_item_list()
         .into_iter()
@@ -251,11 +290,9 @@ pub fn add_message_to_trait_def(trait_def: &TraitDefinition, range: TextRange) -
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(trait_def.syntax());
     let names = trait_def
-        .messages()
-        .iter()
-        .filter_map(Message::fn_item)
-        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
-        .collect();
+        .trait_item()
+        .map(trait_fn_names)
+        .unwrap_or_default();
     let (text, snippet) = unique_text_and_snippet(
         TRAIT_MESSAGE_PLAIN,
         TRAIT_MESSAGE_SNIPPET,
@@ -309,11 +346,9 @@ pub fn add_extension(
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(chain_extension.syntax());
     let names = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::fn_item)
-        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
-        .collect();
+        .trait_item()
+        .map(trait_fn_names)
+        .unwrap_or_default();
     let (mut text, mut snippet) = if version == Version::V5 {
         let preferred_name = "my_function";
         let suggested_name = utils::suggest_unique_name(preferred_name, &names);
-- 
2.43.0


From 9e1b87998c823664d13126a469b3e843c24e4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:38 +0000
Subject: [PATCH 55/66] fix: don't generate projects with contract names that
 are not identifiers

---
 crates/analyzer/src/codegen.rs | 13 +++++++++----
 crates/analyzer/src/utils.rs   |  9 +++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/codegen.rs b/crates/analyzer/src/codegen.rs
index 617e5b7..47685df 100644
--- a/crates/analyzer/src/codegen.rs
+++ b/crates/analyzer/src/codegen.rs
@@ -64,6 +64,11 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
     let module_name = name.replace('-', "_");
     let struct_name = utils::pascal_case(&module_name);
 
+    // Validates that the generated names are valid Rust identifiers (e.g. not keywords).
+    if !utils::is_identifier(&module_name) || !utils::is_identifier(&struct_name) {
+        return Err(Error::PackageName);
+    }
+
     // Returns project code stubs/snippets.
     Ok(Project {
         // Generates `lib.rs`.
@@ -73,16 +78,16 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
             } else {
                 CONTRACT_PLAIN
             }
-            .replace("my_contract", &module_name)
-            .replace("MyContract", &struct_name),
+            .replace("MyContract", &struct_name)
+            .replace("my_contract", &module_name),
             snippet: Some(
                 if version == Version::V5 {
                     CONTRACT_SNIPPET_V5
                 } else {
                     CONTRACT_SNIPPET
                 }
-                .replace("my_contract", &module_name)
-                .replace("MyContract", &struct_name),
+                .replace("MyContract", &struct_name)
+                .replace("my_contract", &module_name),
             ),
         },
         // Generates `Cargo.toml`.
diff --git a/crates/analyzer/src/utils.rs b/crates/analyzer/src/utils.rs
index 4f7cccd..e8a79ed 100644
--- a/crates/analyzer/src/utils.rs
+++ b/crates/analyzer/src/utils.rs
@@ -1,5 +1,7 @@
 //! Generic utilities.
 
+use ink_analyzer_ir::syntax::SourceFile;
+
 /// Converts a name to Pascal case (i.e. UpperCamelCase).
 ///
 /// Ref: <https://github.com/serde-rs/serde/blob/dad15b9fd0bef97b7a7c90a8a165b6ffbc682cae/serde_derive/src/internals/case.rs#L86-L100>.
@@ -18,3 +20,10 @@ pub fn pascal_case(name: &str) -> String {
     }
     pascal_name
 }
+
+/// Returns true if the name is a valid Rust identifier (i.e. not a keyword e.t.c).
+pub fn is_identifier(name: &str) -> bool {
+    SourceFile::parse(&format!("mod {name};"))
+        .errors()
+        .is_empty()
+}
-- 
2.43.0


From 33c734f4861f8b730dc36b6eae1423099f38dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:47 +0000
Subject: [PATCH 56/66] fix: don't reuse names from sibling impl blocks for
 inserted callables

---
 crates/analyzer/src/analysis/text_edit/common.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index ef66050..ce12cb1 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -245,11 +245,23 @@ pub fn impl_fn_names(impl_item: &ast::Impl) -> HashSet<String> {
         .collect()
 }
 
+/// Returns the names of all `fn` items in an `impl` block and its sibling `impl` blocks.
+fn sibling_impl_fn_names(impl_item: &ast::Impl) -> HashSet<String> {
+    impl_item
+        .syntax()
+        .parent()
+        .into_iter()
+        .flat_map(|parent| parent.children())
+        .filter_map(ast::Impl::cast)
+        .flat_map(|impl_item| impl_fn_names(&impl_item))
+        .collect()
+}
+
 /// Creates text edit for ink! constructor.
 pub fn add_constructor_to_impl(impl_item: &ast::Impl, range: TextRange) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(impl_item.syntax());
-    let names = impl_fn_names(impl_item);
+    let names = sibling_impl_fn_names(impl_item);
     let (text, snippet) =
         unique_text_and_snippet(CONSTRUCTOR_PLAIN, CONSTRUCTOR_SNIPPET, "new", &names);
 
@@ -264,7 +276,7 @@ pub fn add_constructor_to_impl(impl_item: &ast::Impl, range: TextRange) -> TextE
 pub fn add_message_to_impl(impl_item: &ast::Impl, range: TextRange) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(impl_item.syntax());
-    let names = impl_fn_names(impl_item);
+    let names = sibling_impl_fn_names(impl_item);
     let (text, snippet) =
         unique_text_and_snippet(MESSAGE_PLAIN, MESSAGE_SNIPPET, "my_message", &names);
 
-- 
2.43.0


From 62c072ebb1aea8154ec1c2e7a392a8928fd6c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:47 +0000
Subject: [PATCH 57/66] fix: don't complete messages next to a wildcard
 selector in ink! 5.x

---
 crates/analyzer/src/analysis/actions/item.rs | 21 ++------------------
 crates/analyzer/src/analysis/completions.rs  |  7 ++++++-
 crates/analyzer/src/analysis/utils.rs        | 20 +++++++++++++++++++
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index e3b75b7..3a7710e 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -4,7 +4,7 @@ use ink_analyzer_ir::ast::HasAttrs;
 use ink_analyzer_ir::syntax::{AstNode, SyntaxKind, SyntaxNode, SyntaxToken, TextRange};
 use ink_analyzer_ir::{
     ast, ChainExtension, Contract, Event, EventV2, InkArgKind, InkAttributeKind, InkEntity,
-    InkFile, InkImpl, InkMacroKind, IsInkCallable, Message, TraitDefinition,
+    InkFile, InkImpl, InkMacroKind, IsInkCallable, TraitDefinition,
 };
 use itertools::Itertools;
 
@@ -432,24 +432,7 @@ fn item_ink_entity_actions(
 
                 // For v5 messages, we only suggest adding messages,
                 // if there isn't a message with a wildcard selector.
-                let has_message_with_wildcard_selector = || {
-                    let contains_wildcard = |messages: &[Message]| {
-                        messages.iter().any(|message| {
-                            message
-                                .selector_arg()
-                                .is_some_and(|selector| selector.is_wildcard())
-                        })
-                    };
-                    ink_analyzer_ir::ink_parent::<Contract>(impl_item.syntax())
-                        .as_ref()
-                        .map(Contract::messages)
-                        .is_some_and(contains_wildcard)
-                        || InkImpl::cast(impl_item.syntax().clone())
-                            .as_ref()
-                            .map(InkImpl::messages)
-                            .is_some_and(contains_wildcard)
-                };
-                if version != Version::V5 || !has_message_with_wildcard_selector() {
+                if version != Version::V5 || !utils::has_message_with_wildcard_selector(impl_item) {
                     // Adds ink! message.
                     add_result_opt!(entity::add_message_to_impl(
                         impl_item,
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index 752c6c8..756c989 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -788,8 +788,13 @@ pub fn entity_completions(
                     });
                 }
 
+                // For v5 messages, we only suggest adding messages,
+                // if there isn't a message with a wildcard selector.
+                let can_add_message = version != Version::V5
+                    || !utils::has_message_with_wildcard_selector(&impl_item);
+
                 // Adds ink! message.
-                if is_line_affix_of(&["fn", "message"]) {
+                if can_add_message && is_line_affix_of(&["fn", "message"]) {
                     results.push(Completion {
                         label: "#[ink(message)]..pub fn message(..) {...}".to_owned(),
                         range,
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index e887c82..5a06d61 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2097,6 +2097,26 @@ pub fn suggest_unique_name(preferred_name: &str, unavailable_names: &HashSet<Str
     suggested_name
 }
 
+/// Returns true if either the `impl` block or its parent ink! contract has a message with
+/// a wildcard selector.
+pub fn has_message_with_wildcard_selector(impl_item: &ast::Impl) -> bool {
+    let contains_wildcard = |messages: &[Message]| {
+        messages.iter().any(|message| {
+            message
+                .selector_arg()
+                .is_some_and(|selector| selector.is_wildcard())
+        })
+    };
+    ink_analyzer_ir::ink_parent::<Contract>(impl_item.syntax())
+        .as_ref()
+        .map(Contract::messages)
+        .is_some_and(contains_wildcard)
+        || InkImpl::cast(impl_item.syntax().clone())
+            .as_ref()
+            .map(InkImpl::messages)
+            .is_some_and(contains_wildcard)
+}
+
 /// Returns text range of the contract `mod` "declaration"
 /// (i.e tokens between meta - attributes/rustdoc - and the start of the item list).
 pub fn contract_declaration_range(contract: &Contract) -> TextRange {
-- 
2.43.0


From 874e1a2e3534298caa910d9d8077f55985869d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:47 +0000
Subject: [PATCH 58/66] fix: don't generate projects named after reserved
 keywords

---
 crates/analyzer/src/utils.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/utils.rs b/crates/analyzer/src/utils.rs
index e8a79ed..e1cffe5 100644
--- a/crates/analyzer/src/utils.rs
+++ b/crates/analyzer/src/utils.rs
@@ -23,7 +23,14 @@ pub fn pascal_case(name: &str) -> String {
 
 /// Returns true if the name is a valid Rust identifier (i.e. not a keyword e.t.c).
 pub fn is_identifier(name: &str) -> bool {
-    SourceFile::parse(&format!("mod {name};"))
-        .errors()
-        .is_empty()
+    // Reserved keywords that are accepted by the parser.
+    // Ref: <https://doc.rust-lang.org/reference/keywords.html#reserved-keywords>.
+    let is_reserved = matches!(
+        name,
+        "abstract" | "become" | "final" | "override" | "priv" | "typeof" | "unsized" | "virtual"
+    );
+    !is_reserved
+        && SourceFile::parse(&format!("mod {name};"))
+            .errors()
+            .is_empty()
 }
-- 
2.43.0


From 7c9b737c9b87901e5fa4e88c7de96f4f054eb8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:07 +0000
Subject: [PATCH 59/66] fix: keep migration edits of e2e tests apart

Restores e2e_test.rs, and resolves overlaps where the edits are collected.
---
 crates/analyzer/src/analysis/migrate.rs       |   9 +-
 .../analyzer/src/analysis/migrate/common.rs   |  35 +-
 .../analyzer/src/analysis/migrate/e2e_test.rs | 316 +++++++-----------
 3 files changed, 169 insertions(+), 191 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 86a5ce4..c1162ba 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -24,7 +24,14 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
 
     // Migrate e2e tests.
     // NOTE: May add imports to the start of the file, so these edits need to come before edits for other items.
-    e2e_test::migrate(&mut results, file);
+    let mut e2e_results = Vec::new();
+    e2e_test::migrate(&mut e2e_results, file);
+    // Ensures a deterministic order for edits with the same range (e.g. imports).
+    e2e_results.sort_by(|a, b| {
+        (a.range.start(), a.range.end(), &a.text).cmp(&(b.range.start(), b.range.end(), &b.text))
+    });
+    results.extend(e2e_results);
+    results = common::resolve_overlaps(results);
 
     // Migrate built-in `derive`s of SCALE codec traits.
     scale_derive(&mut results, file);
diff --git a/crates/analyzer/src/analysis/migrate/common.rs b/crates/analyzer/src/analysis/migrate/common.rs
index 076501d..32f8072 100644
--- a/crates/analyzer/src/analysis/migrate/common.rs
+++ b/crates/analyzer/src/analysis/migrate/common.rs
@@ -1,7 +1,8 @@
 //! Utilities for ink! 5.0 migration.
 
 use ink_analyzer_ir::ast;
-use ink_analyzer_ir::syntax::SyntaxNode;
+use ink_analyzer_ir::syntax::{SyntaxNode, TextRange};
+use itertools::Itertools;
 
 use crate::{resolution, TextEdit};
 
@@ -30,6 +31,38 @@ pub fn take_edited_text(node: &SyntaxNode, edits: &mut Vec<TextEdit>) -> String
     text
 }
 
+/// Ensures that edits don't overlap, by:
+/// - merging overlapping deletions
+/// - moving insertions inside (or at the end of) a deletion to its start
+/// - removing edits inside a replaced range
+pub fn resolve_overlaps(edits: Vec<TextEdit>) -> Vec<TextEdit> {
+    let mut results: Vec<TextEdit> = Vec::new();
+    let is_deletion = |edit: &TextEdit| edit.text.is_empty();
+    // Starts with the largest edits (the sort is stable).
+    let sorted_edits = edits
+        .into_iter()
+        .sorted_by_key(|edit| std::cmp::Reverse(edit.range.len()));
+    for mut edit in sorted_edits {
+        let overlap = results.iter_mut().find(|other| {
+            other.range.start() < edit.range.end()
+                && (edit.range.start() < other.range.end()
+                    || (is_deletion(other) && edit.range == TextRange::empty(other.range.end())))
+        });
+        match overlap {
+            Some(other) if is_deletion(other) && is_deletion(&edit) => {
+                other.range = other.range.cover(edit.range);
+            }
+            Some(other) if is_deletion(other) && edit.range.is_empty() => {
+                edit.range = TextRange::empty(other.range.start());
+                results.push(edit);
+            }
+            Some(_) => (),
+            None => results.push(edit),
+        }
+    }
+    results
+}
+
 pub fn last_segment_generic_args(path: &ast::Path) -> Option<ast::GenericArgList> {
     path.segment()
         .as_ref()
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 87204b8..2cafb28 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -1,10 +1,10 @@
 //! ink! 5.0 e2e test migration.
 
-use std::collections::{BTreeSet, HashSet};
+use std::collections::HashSet;
 use std::fmt;
 
-use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
-use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxNode, TextRange};
+use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasName};
+use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
 use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
 
@@ -32,27 +32,13 @@ pub fn migrate(results: &mut Vec<TextEdit>, file: &InkFile) {
         // Remove deprecated imports.
         deprecated_imports(results, e2e_test);
     }
-
-    // Ensures that new imports don't overlap with removed ones.
-    let removed: Vec<_> = results
-        .iter()
-        .filter(|edit| edit.text.is_empty())
-        .map(|edit| edit.range)
-        .collect();
-    for edit in results.iter_mut().filter(|edit| edit.range.is_empty()) {
-        if let Some(range) = removed
-            .iter()
-            .find(|range| range.end() == edit.range.start())
-        {
-            edit.range = TextRange::empty(range.start());
-        }
-    }
 }
 
 /// Computes text edits for migrating ink! e2e test attributes to ink! 5.0.
 fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if e2e_test.environment_arg().is_none()
-        && (e2e_test.additional_contracts_arg().is_some() || e2e_test.keep_attr_arg().is_some())
+        && (e2e_test.additional_contracts_arg().is_some()
+            || e2e_test.additional_contracts_arg().is_some())
     {
         // Remove all attribute arguments if the ink! e2e attribute has either an
         // `additional_contracts` and/or `keep_attr` argument but no `environment` argument.
@@ -61,21 +47,14 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         }
     } else {
         // Remove `additional_contracts` argument (if any).
-        let mut last_range = None;
         if let Some(arg) = e2e_test.additional_contracts_arg() {
             let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
-            last_range = Some(range);
             results.push(TextEdit::delete(range));
         }
 
         // Remove `keep_attr` argument (if any).
         if let Some(arg) = e2e_test.keep_attr_arg() {
-            let mut range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
-            if let Some(last_range) = last_range.filter(|it| it.intersect(range).is_some()) {
-                // Merges the edits if the arguments share a delimiter.
-                results.pop();
-                range = range.cover(last_range);
-            }
+            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
             results.push(TextEdit::delete(range));
         }
     }
@@ -83,11 +62,7 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
 /// Computes text edits for migrating ink! e2e test function signatures to ink! 5.0.
 fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
-    // NOTE: ink! 4.x e2e test `fn`s can't be generic, so a generic `fn` is already migrated.
-    if let Some(fn_item) = e2e_test
-        .fn_item()
-        .filter(|fn_item| fn_item.generic_param_list().is_none())
-    {
+    if let Some(fn_item) = e2e_test.fn_item() {
         // Edit range for `fn` parameter list.
         let range = fn_item
             .param_list()
@@ -108,7 +83,7 @@ fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 }
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 enum E2ETrait {
     Contracts,
     Chain,
@@ -127,12 +102,7 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         return;
     };
 
-    // Starts with other edits inside the body, because they may become part of larger edits.
     let mut visitor = BodyVisitor::new();
-    let body_range = body.syntax().text_range();
-    (visitor.results, *results) = results
-        .drain(..)
-        .partition(|edit| body_range.contains_range(edit.range));
     visitor.visit_block(&body);
 
     results.extend(visitor.results);
@@ -142,7 +112,6 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         return;
     }
     let mut insert_offset_and_indent = None;
-    let mut existing_imports = HashSet::new();
     let parent_item = ink_analyzer_ir::parent_ast_item(e2e_test.syntax());
     if parent_item.is_none() {
         // Insert trait imports in file root if e2e test `fn` has no parent item.
@@ -154,19 +123,15 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         {
             let insert_offset = file_root
                 .doc_comments()
+                .last()
+                .as_ref()
                 .map(|comment| comment.syntax().text_range().end())
-                .chain(utils::inner_attrs_end(file_root.syntax()))
-                .max()
                 .unwrap_or_else(|| file_root.syntax().text_range().start());
             insert_offset_and_indent = Some((insert_offset, String::new()));
-            existing_imports = imports(file_root.syntax());
         }
     } else {
         // Alternatively, insert trait imports in parent `mod` item of e2e test `fn` (if any).
         if let Some(ast::Item::Module(mod_item)) = parent_item {
-            if let Some(item_list) = mod_item.item_list() {
-                existing_imports = imports(item_list.syntax());
-            }
             insert_offset_and_indent = mod_item
                 .item_list()
                 .as_ref()
@@ -200,11 +165,7 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 
     if let Some((insert_offset, indent)) = insert_offset_and_indent {
-        for e2e_trait in visitor
-            .required_traits
-            .iter()
-            .filter(|e2e_trait| !existing_imports.contains(&format!("use {e2e_trait};")))
-        {
+        for e2e_trait in visitor.required_traits {
             results.push(TextEdit::insert(
                 format!("\n{indent}use {e2e_trait};"),
                 insert_offset,
@@ -213,14 +174,6 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 }
 
-/// Returns the (simple) use declarations that are direct children of the node.
-fn imports(node: &SyntaxNode) -> HashSet<String> {
-    node.children()
-        .filter_map(ast::Use::cast)
-        .map(|use_item| use_item.to_string())
-        .collect()
-}
-
 /// Computes text edits for removing use declarations of ink! e2e items deprecated in ink! 5.0.
 fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if let Some(fn_item) = e2e_test.fn_item() {
@@ -354,39 +307,74 @@ fn deprecated_imports(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 
 struct BodyVisitor {
     results: Vec<TextEdit>,
-    required_traits: BTreeSet<E2ETrait>,
+    required_traits: HashSet<E2ETrait>,
 }
 
 impl BodyVisitor {
     fn new() -> Self {
         Self {
             results: Vec::new(),
-            required_traits: BTreeSet::new(),
+            required_traits: HashSet::new(),
         }
     }
+}
 
-    /// Returns the text for an expression, including any edits inside it.
-    fn take_edited_text(&mut self, expr: &ast::Expr) -> String {
-        common::take_edited_text(expr.syntax(), &mut self.results)
-    }
+impl Visitor for BodyVisitor {
+    fn visit_call(&mut self, expr: &ast::CallExpr) {
+        let Some(message_builder_call) = MessageBuilderCall::parse(expr) else {
+            walk_call(self, expr);
+            return;
+        };
+
+        // Replace `build_message::<..>(..)` or `MessageBuilder<..>::from_account_id(..)` with `create_call_builder<..>(..)`.
+        let (call_path, generic_args_list) = match message_builder_call {
+            MessageBuilderCall::BuildMessageFn(ref path) => {
+                let generic_args_list = message_builder_call
+                    .generic_args()
+                    .as_ref()
+                    .map(ToString::to_string);
+                (path, generic_args_list)
+            }
+            MessageBuilderCall::MessageBuilderFromAccountId(ref path) => {
+                let generic_args_list = message_builder_call
+                    .generic_args()
+                    .as_ref()
+                    .map(ast::GenericArgList::generic_args)
+                    .and_then(|generic_args| {
+                        generic_args
+                            .last()
+                            .map(|last_generic_arg| format!("::<{}>", last_generic_arg))
+                    });
+                (path, generic_args_list)
+            }
+        };
+        self.results.push(TextEdit::replace(
+            format!(
+                "ink_e2e::create_call_builder{}",
+                generic_args_list.as_deref().unwrap_or_default()
+            ),
+            call_path.syntax().text_range(),
+        ));
 
-    /// Replace `.call(|contract| contract.message(..))` with `.message(..)`
-    /// (for `build_message::<..>(..)` and `MessageBuilder<..>::from_account_id(..)` calls).
-    fn message_call(&mut self, call_method: &ast::MethodCallExpr) {
-        let Some(call_method_name) = call_method
+        // Replace `.call(|contract| contract.message(..))` with `.message(..)`.
+        let Some(chained_call_method) = expr.syntax().parent().and_then(ast::MethodCallExpr::cast)
+        else {
+            return;
+        };
+        let Some(chained_call_method_name) = chained_call_method
             .name_ref()
             .filter(|method_name| method_name.to_string() == "call")
         else {
             return;
         };
-        let Some(call_method_args) = call_method
+        let Some(chained_call_method_args) = chained_call_method
             .arg_list()
             .as_ref()
             .map(ast::ArgList::args)
         else {
             return;
         };
-        let Some((ast::Expr::ClosureExpr(callback),)) = call_method_args.collect_tuple()
+        let Some((ast::Expr::ClosureExpr(callback),)) = chained_call_method_args.collect_tuple()
         else {
             return;
         };
@@ -399,22 +387,20 @@ impl BodyVisitor {
         let Some(contract_call_name) = contract_call.name_ref() else {
             return;
         };
-        let contract_call_args = contract_call
-            .arg_list()
-            .map(|arg_list| common::take_edited_text(arg_list.syntax(), &mut self.results));
-        let range = TextRange::new(
-            call_method_name.syntax().text_range().start(),
-            call_method.syntax().text_range().end(),
-        );
-        self.results
-            .retain(|edit| !range.contains_range(edit.range));
         self.results.push(TextEdit::replace(
             format!(
                 "{}{}",
                 contract_call_name,
-                contract_call_args.as_deref().unwrap_or("()")
+                contract_call
+                    .arg_list()
+                    .as_ref()
+                    .map(ToString::to_string)
+                    .unwrap_or_else(|| "()".to_owned())
+            ),
+            TextRange::new(
+                chained_call_method_name.syntax().text_range().start(),
+                chained_call_method.syntax().text_range().end(),
             ),
-            range,
         ));
 
         fn last_method_call(expr: &ast::Expr) -> Option<ast::MethodCallExpr> {
@@ -449,98 +435,20 @@ impl BodyVisitor {
         }
     }
 
-    fn value_call(&mut self, expr: &ast::Expr) -> Option<String> {
-        let mut is_zero = false;
-        if let ast::Expr::Literal(ref lit) = expr {
-            if let ast::LiteralKind::IntNumber(int) = lit.kind() {
-                if let Ok(value) = int.value() {
-                    is_zero = value == 0;
-                }
-            }
-        }
-        (!is_zero).then(|| format!(".value({})", self.take_edited_text(expr)))
-    }
-
-    fn storage_deposit_limit_call(&mut self, expr: &ast::Expr) -> Option<String> {
-        let mut is_none = false;
-        if let ast::Expr::PathExpr(ref path) = expr {
-            is_none = matches!(path.to_string().as_str(), "None" | "Option::None");
-        }
-        (!is_none).then(|| {
-            let mut storage_deposit_limit_value = None;
-            if let ast::Expr::CallExpr(ref call) = expr {
-                if let Some(ast::Expr::PathExpr(path)) = call.expr() {
-                    if matches!(path.to_string().as_str(), "Some" | "Option::Some") {
-                        storage_deposit_limit_value = call
-                            .arg_list()
-                            .as_ref()
-                            .map(ast::ArgList::args)
-                            .and_then(|mut args| args.next())
-                            .map(|arg| self.take_edited_text(&arg));
-                    }
-                }
-            }
-            format!(
-                ".storage_deposit_limit({})",
-                storage_deposit_limit_value.unwrap_or_else(|| self.take_edited_text(expr))
-            )
-        })
-    }
-}
-
-impl Visitor for BodyVisitor {
-    fn visit_call(&mut self, expr: &ast::CallExpr) {
-        let Some(message_builder_call) = MessageBuilderCall::parse(expr) else {
-            walk_call(self, expr);
-            return;
-        };
-
-        // Replace `build_message::<..>(..)` or `MessageBuilder<..>::from_account_id(..)` with `create_call_builder<..>(..)`.
-        let (call_path, generic_args_list) = match message_builder_call {
-            MessageBuilderCall::BuildMessageFn(ref path) => {
-                let generic_args_list = message_builder_call
-                    .generic_args()
-                    .as_ref()
-                    .map(ToString::to_string);
-                (path, generic_args_list)
-            }
-            MessageBuilderCall::MessageBuilderFromAccountId(ref path) => {
-                let generic_args_list = message_builder_call
-                    .generic_args()
-                    .as_ref()
-                    .map(ast::GenericArgList::generic_args)
-                    .and_then(|generic_args| {
-                        generic_args
-                            .last()
-                            .map(|last_generic_arg| format!("::<{}>", last_generic_arg))
-                    });
-                (path, generic_args_list)
-            }
-        };
-        self.results.push(TextEdit::replace(
-            format!(
-                "ink_e2e::create_call_builder{}",
-                generic_args_list.as_deref().unwrap_or_default()
-            ),
-            call_path.syntax().text_range(),
-        ));
-
-        // Migrate calls inside the arguments (if any).
-        walk_call(self, expr);
-    }
-
     fn visit_method_call(&mut self, expr: &ast::MethodCallExpr) {
-        walk_method_call(self, expr);
-
-        let is_message_builder_receiver = expr.receiver().is_some_and(|receiver| {
-            matches!(&receiver, ast::Expr::CallExpr(call) if MessageBuilderCall::parse(call).is_some())
-        });
-        if is_message_builder_receiver {
-            self.message_call(expr);
-            return;
+        let is_client_receiver = expr
+            .receiver()
+            .and_then(|receiver| match receiver {
+                ast::Expr::PathExpr(path) => Some(path),
+                _ => None,
+            })
+            .is_some_and(|receiver| receiver.to_string() == "client");
+        if !is_client_receiver {
+            walk_method_call(self, expr);
         }
 
         let Some(method_name) = expr.name_ref() else {
+            walk_method_call(self, expr);
             return;
         };
         let Some(arg_list) = expr.arg_list() else {
@@ -553,17 +461,13 @@ impl Visitor for BodyVisitor {
                 if let Some((contract_name, signer, constructor, value, storage_deposit_limit)) =
                     args.collect_tuple()
                 {
-                    let contract_name = self.take_edited_text(&contract_name);
-                    let signer = self.take_edited_text(&signer);
-                    let constructor = self.take_edited_text(&constructor);
-                    let value = self.value_call(&value);
-                    let storage_deposit_limit =
-                        self.storage_deposit_limit_call(&storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}, {constructor}){}{}{}",
-                            value.as_deref().unwrap_or_default(),
-                            storage_deposit_limit.as_deref().unwrap_or_default(),
+                            value_call(&value).as_deref().unwrap_or_default(),
+                            storage_deposit_limit_call(&storage_deposit_limit)
+                                .as_deref()
+                                .unwrap_or_default(),
                             if name == "instantiate_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -583,16 +487,13 @@ impl Visitor for BodyVisitor {
             name @ ("call" | "call_dry_run") => {
                 if let Some((signer, message, value, storage_deposit_limit)) = args.collect_tuple()
                 {
-                    let signer = self.take_edited_text(&signer);
-                    let message = self.take_edited_text(&message);
-                    let value = self.value_call(&value);
-                    let storage_deposit_limit =
-                        self.storage_deposit_limit_call(&storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({signer}, {message}){}{}{}",
-                            value.as_deref().unwrap_or_default(),
-                            storage_deposit_limit.as_deref().unwrap_or_default(),
+                            value_call(&value).as_deref().unwrap_or_default(),
+                            storage_deposit_limit_call(&storage_deposit_limit)
+                                .as_deref()
+                                .unwrap_or_default(),
                             if name == "call_dry_run" {
                                 ".dry_run()"
                             } else {
@@ -611,14 +512,12 @@ impl Visitor for BodyVisitor {
             }
             "upload" => {
                 if let Some((contract_name, signer, storage_deposit_limit)) = args.collect_tuple() {
-                    let contract_name = self.take_edited_text(&contract_name);
-                    let signer = self.take_edited_text(&signer);
-                    let storage_deposit_limit =
-                        self.storage_deposit_limit_call(&storage_deposit_limit);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}){}.submit()",
-                            storage_deposit_limit.as_deref().unwrap_or_default(),
+                            storage_deposit_limit_call(&storage_deposit_limit)
+                                .as_deref()
+                                .unwrap_or_default(),
                         ),
                         arg_list.syntax().text_range(),
                     ));
@@ -649,6 +548,45 @@ impl Visitor for BodyVisitor {
             _ => (),
         }
 
+        fn value_call(expr: &ast::Expr) -> Option<String> {
+            let mut is_zero = false;
+            if let ast::Expr::Literal(ref lit) = expr {
+                if let ast::LiteralKind::IntNumber(int) = lit.kind() {
+                    if let Ok(value) = int.value() {
+                        is_zero = value == 0;
+                    }
+                }
+            }
+            (!is_zero).then_some(format!(".value({expr})"))
+        }
+
+        fn storage_deposit_limit_call(expr: &ast::Expr) -> Option<String> {
+            let mut is_none = false;
+            if let ast::Expr::PathExpr(ref path) = expr {
+                is_none = matches!(path.to_string().as_str(), "None" | "Option::None");
+            }
+            (!is_none).then(|| {
+                let mut storage_deposit_limit_value = None;
+                if let ast::Expr::CallExpr(ref call) = expr {
+                    if let Some(ast::Expr::PathExpr(path)) = call.expr() {
+                        if matches!(path.to_string().as_str(), "Some" | "Option::Some") {
+                            storage_deposit_limit_value = call
+                                .arg_list()
+                                .as_ref()
+                                .map(ast::ArgList::args)
+                                .and_then(|mut args| args.next())
+                                .as_ref()
+                                .map(ToString::to_string);
+                        }
+                    }
+                }
+                format!(
+                    ".storage_deposit_limit({})",
+                    storage_deposit_limit_value.unwrap_or_else(|| { expr.to_string() })
+                )
+            })
+        }
+
         fn unwrap_dry_run_result(results: &mut Vec<TextEdit>, expr: &ast::MethodCallExpr) {
             if let Some(await_expr) = expr.syntax().parent().and_then(ast::AwaitExpr::cast) {
                 results.push(TextEdit::insert(
-- 
2.43.0


From 24ed02ca01ed1956774e1b8f9c3108e80b557ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:10 +0000
Subject: [PATCH 60/66] fix: don't reuse ids for inserted chain extension
 functions

---
 .../analyzer/src/analysis/text_edit/common.rs | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index ce12cb1..115a0f7 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -5,8 +5,8 @@ use std::collections::HashSet;
 use ink_analyzer_ir::ast::{HasModuleItem, HasName};
 use ink_analyzer_ir::syntax::{AstNode, TextRange};
 use ink_analyzer_ir::{
-    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkTrait, TraitDefinition,
-    Version,
+    ast, ChainExtension, Contract, Extension, Function, InkEntity, InkFile, IsInkTrait,
+    TraitDefinition, Version,
 };
 
 use super::{utils, TextEdit};
@@ -376,12 +376,21 @@ pub fn add_extension(
             EXTENSION_FN_SNIPPET.replace(preferred_name, &suggested_name),
         )
     };
-    let unavailable_ids = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::id)
-        .collect();
-    let id = utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
+    let id = if version == Version::V5 {
+        let unavailable_ids = chain_extension
+            .functions()
+            .iter()
+            .filter_map(Function::id)
+            .collect();
+        u32::from(utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1))
+    } else {
+        let unavailable_ids = chain_extension
+            .extensions()
+            .iter()
+            .filter_map(Extension::id)
+            .collect();
+        utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1)
+    };
     if id > 1 {
         text = text.replace("1)]", &format!("{id})]"));
         snippet = snippet.replace("1})]", &format!("{id}}})]"));
-- 
2.43.0


From 551e47cf63efe731c3e52fae4813da5579afc47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:10 +0000
Subject: [PATCH 61/66] fix: only insert inner attributes with a contract at
 the start of a file

---
 .../analyzer/src/analysis/actions/entity.rs   |  3 +-
 crates/analyzer/src/analysis/actions/item.rs  |  1 +
 crates/analyzer/src/analysis/completions.rs   |  2 +-
 .../analyzer/src/analysis/text_edit/common.rs | 34 +++++++++++++------
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 5d3042a..e10838c 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -506,6 +506,7 @@ pub fn add_ink_e2e_test(
 
 /// Add an ink! contract `mod`.
 pub fn add_contract(
+    file: &InkFile,
     range: TextRange,
     kind: ActionKind,
     indent_option: Option<&str>,
@@ -515,7 +516,7 @@ pub fn add_contract(
         label: "Add ink! contract `mod`.".to_owned(),
         kind,
         range,
-        edits: vec![text_edit::add_contract(range, indent_option, version)],
+        edits: vec![text_edit::add_contract(file, range, indent_option, version)],
     }
 }
 
diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index 3a7710e..184f332 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -596,6 +596,7 @@ fn root_ink_entity_actions(
     if file.contracts().is_empty() {
         // Adds ink! contract.
         results.push(entity::add_contract(
+            file,
             range,
             ActionKind::Refactor,
             None,
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index 756c989..9cff2c4 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -880,7 +880,7 @@ pub fn entity_completions(
             results.push(Completion {
                 label: "#[ink::contract]..mod contract {...}".to_owned(),
                 range,
-                edit: text_edit::add_contract(range, None, version),
+                edit: text_edit::add_contract(file, range, None, version),
                 detail: Some("ink! contract".to_owned()),
                 kind: CompletionKind::Mod,
             });
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 115a0f7..f75aecf 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -109,19 +109,31 @@ fn trait_fn_names(trait_item: &ast::Trait) -> HashSet<String> {
 }
 
 /// Creates text edit for ink! contract.
-pub fn add_contract(range: TextRange, indent: Option<&str>, version: Version) -> TextEdit {
+pub fn add_contract(
+    file: &InkFile,
+    range: TextRange,
+    indent: Option<&str>,
+    version: Version,
+) -> TextEdit {
+    let (plain, snippet) = if version == Version::V5 {
+        (CONTRACT_PLAIN_V5, CONTRACT_SNIPPET_V5)
+    } else {
+        (CONTRACT_PLAIN, CONTRACT_SNIPPET)
+    };
+    // Inner attributes are only valid at the beginning of the file.
+    let is_file_start = !file.syntax().children().any(|node| {
+        ast::Attr::can_cast(node.kind())
+            || (ast::Item::can_cast(node.kind()) && node.text_range().start() < range.start())
+    });
+    let contract_text = |text: &'static str| {
+        text.find("#[ink::contract")
+            .filter(|_| !is_file_start)
+            .map_or(text, |offset| &text[offset..])
+    };
     text_edit_with_indent(
-        if version == Version::V5 {
-            CONTRACT_PLAIN_V5
-        } else {
-            CONTRACT_PLAIN
-        },
+        contract_text(plain),
         range,
-        Some(if version == Version::V5 {
-            CONTRACT_SNIPPET_V5
-        } else {
-            CONTRACT_SNIPPET
-        }),
+        Some(contract_text(snippet)),
         indent,
     )
 }
-- 
2.43.0


From dc008c9a63b8bed613e45bb7f82c1e2a4180de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:04 +0000
Subject: [PATCH 62/66] fix: don't panic on completions after an unclosed ink!
 attribute

---
 crates/analyzer/src/analysis/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 5a06d61..4926c8c 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -785,6 +785,10 @@ pub fn ink_arg_insert_text(
         parent_attr_option
             .map(InkAttribute::syntax)
             .zip(insert_offset_option)
+            // Insert offset may be after the end of an incomplete attribute.
+            .filter(|(parent_node, insert_offset)| {
+                parent_node.text_range().contains_inclusive(*insert_offset)
+            })
             .and_then(|(parent_node, insert_offset)| {
                 parent_node
                     .token_at_offset(insert_offset)
-- 
2.43.0


From 23da4f370a5f95987b33811e02f9b0d5addee79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:10 +0000
Subject: [PATCH 63/66] fix: read integer and string values of ink! arguments
 like Rust does

Values with comments next to them, integers with digit separators, a type
suffix or a binary or octal base were rejected, and raw strings and strings
with escapes were misread.
---
 crates/ir/src/attrs/meta/value.rs | 55 ++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 12fe0ec..e8b7b90 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -61,7 +61,12 @@ impl MetaValue {
             // Ref: <https://doc.rust-lang.org/reference/expressions/path-expr.html>.
             // NOTE: `_` is already handled as a token above, so underscore expressions are ignored.
             // Ref: <https://doc.rust-lang.org/reference/expressions/underscore-expr.html>.
-            let arg_text = elems.iter().map(ToString::to_string).join("");
+            // NOTE: Comments aren't part of the value.
+            let arg_text = elems
+                .iter()
+                .filter(|elem| elem.kind() != SyntaxKind::COMMENT)
+                .map(ToString::to_string)
+                .join("");
             if let Some(expr) = ra_ap_syntax::hacks::parse_expr_from_str(&arg_text) {
                 if matches!(expr, ast::Expr::Literal(_) | ast::Expr::PathExpr(_)) {
                     return Some(Self {
@@ -96,6 +101,14 @@ impl MetaValue {
             .expect("Either `MetaValue::token` or `MetaValue::expr` should be `Some`")
     }
 
+    /// Returns the kind of literal (if the value is a literal).
+    fn literal_kind(&self) -> Option<ast::LiteralKind> {
+        match self.expr.as_ref()? {
+            ast::Expr::Literal(lit) => Some(lit.kind()),
+            _ => None,
+        }
+    }
+
     /// Returns the accurate text range for the parsed meta value.
     pub fn text_range(&self) -> TextRange {
         let mut start: Option<TextSize> = None;
@@ -143,32 +156,34 @@ impl MetaValue {
         self.kind() == SyntaxKind::AT
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u16`.
+    /// Converts the value if it's an integer literal into a `u16`.
     pub fn as_u16(&self) -> Option<u16> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u32`.
+    /// Converts the value if it's an integer literal into a `u32`.
     pub fn as_u32(&self) -> Option<u32> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a integer.
+    /// Converts the value if it's an integer literal into a integer.
     pub fn as_int<T>(&self) -> Option<T>
     where
         T: IsIntId,
     {
-        if self.kind() == SyntaxKind::INT_NUMBER {
-            let value = self.to_string();
-            if value.starts_with("0x") {
-                // Parse as hex.
-                T::from_str_radix(value.strip_prefix("0x").unwrap(), 16).ok()
-            } else {
-                // Parse as decimal.
-                value.parse::<T>().ok()
+        match self.literal_kind()? {
+            // Ignores integers with unknown suffixes (e.g. `0XA` is a `0` with a suffix).
+            ast::LiteralKind::IntNumber(int)
+                if int.suffix().map_or(true, |suffix| {
+                    matches!(
+                        suffix.strip_prefix(['u', 'i']),
+                        Some("8" | "16" | "32" | "64" | "128" | "size")
+                    )
+                }) =>
+            {
+                T::from_str_radix(&int.value().ok()?.to_string(), 10).ok()
             }
-        } else {
-            None
+            _ => None,
         }
     }
 
@@ -183,14 +198,10 @@ impl MetaValue {
 
     /// Converts the value if it's a string literal into a `String`.
     pub fn as_string(&self) -> Option<String> {
-        (self.kind() == SyntaxKind::STRING).then_some(
-            // Parses string value (removes escaped leading and trailing quotes).
-            self.to_string()
-                .chars()
-                .skip_while(|char| *char == '\"')
-                .take_while(|char| *char != '\"')
-                .join(""),
-        )
+        match self.literal_kind()? {
+            ast::LiteralKind::String(string) => string.value().map(|value| value.into_owned()),
+            _ => None,
+        }
     }
 
     /// Converts the value if it's a path expression into a `Path` with an inaccurate text range.
-- 
2.43.0


From 6710ad8060932d6db3c8d837089ba08a7968eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:01 +0000
Subject: [PATCH 64/66] fix: compare paths without comments and line breaks
 between their segments

---
 crates/ir/src/tree/ast_ext.rs | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index fc2c20c..dcb9216 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -336,7 +336,6 @@ pub fn simple_use_paths_and_aliases_in_scope(
         .flatten();
 
     for (path, alias_option) in use_results {
-        let path = remove_whitespace(&path);
         match alias_option {
             None => {
                 use_paths.insert(path);
@@ -368,9 +367,14 @@ pub fn path_from_type(ty: &ast::Type) -> Option<ast::Path> {
 
 /// Converts a path to a string.
 ///
-/// **NOTE**: Removes whitespace.
+/// **NOTE**: Removes trivia (i.e. whitespace and comments).
 pub fn path_to_string(path: &ast::Path) -> String {
-    remove_whitespace(&path.to_string())
+    path.syntax()
+        .descendants_with_tokens()
+        .filter_map(|elem| elem.into_token())
+        .filter(|token| !token.kind().is_trivia())
+        .map(|token| token.text().to_owned())
+        .collect()
 }
 
 // Returns the item list syntax node for the given syntax node.
@@ -411,18 +415,21 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
             None => sub_paths
                 .filter(|(sub_path, _)| sub_path != "self")
                 .collect(),
-            Some(path_prefix) => sub_paths
-                .map(|(sub_path, alias)| {
-                    (
-                        if sub_path == "self" {
-                            path_prefix.to_string()
-                        } else {
-                            format!("{path_prefix}::{sub_path}")
-                        },
-                        alias,
-                    )
-                })
-                .collect(),
+            Some(path_prefix) => {
+                let path_prefix = path_to_string(&path_prefix);
+                sub_paths
+                    .map(|(sub_path, alias)| {
+                        (
+                            if sub_path == "self" {
+                                path_prefix.clone()
+                            } else {
+                                format!("{path_prefix}::{sub_path}")
+                            },
+                            alias,
+                        )
+                    })
+                    .collect()
+            }
         }
     }
 
@@ -442,10 +449,6 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
     }
 }
 
-fn remove_whitespace(text: &str) -> String {
-    text.replace(' ', "")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 12054f0f498279fe85290bd01aa3cd58d03846f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:01 +0000
Subject: [PATCH 65/66] fix: ignore comments and line breaks in derive lists

---
 .../src/analysis/diagnostics/common.rs        | 14 ++++-------
 crates/analyzer/src/analysis/migrate.rs       | 14 +++--------
 crates/analyzer/src/analysis/utils.rs         | 25 +++++++++++++++++++
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 6b3fecb..2d70bcf 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -2014,10 +2014,10 @@ pub fn ensure_impl_scale_codec_traits(
     });
 
     // Utilities for extracting derive attribute meta items.
-    let meta_to_path_list = |meta: &str| {
-        meta.replace(' ', "")
-            .split(',')
-            .filter_map(ink_analyzer_ir::path_from_str)
+    let meta_to_path_list = |meta: &ast::TokenTree| {
+        utils::token_tree_to_meta_items(meta)
+            .iter()
+            .filter_map(|item| ink_analyzer_ir::path_from_str(item))
             .collect::<Vec<_>>()
     };
 
@@ -2027,9 +2027,7 @@ pub fn ensure_impl_scale_codec_traits(
         .flat_map(|attr| {
             let attr_path = attr.path().map(|path| path.to_string());
             match (attr_path.as_deref().map(str::trim), attr.token_tree()) {
-                (Some("derive"), Some(token_tree)) => {
-                    meta_to_path_list(&utils::token_tree_to_non_delimited_meta_string(&token_tree))
-                }
+                (Some("derive"), Some(token_tree)) => meta_to_path_list(&token_tree),
                 (Some("cfg_attr"), Some(token_tree)) => token_tree
                     .syntax()
                     .children()
@@ -2046,8 +2044,6 @@ pub fn ensure_impl_scale_codec_traits(
                         };
                         if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
                             ast::TokenTree::cast(node)
-                                .as_ref()
-                                .map(utils::token_tree_to_non_delimited_meta_string)
                         } else {
                             None
                         }
diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index c1162ba..c66a991 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -213,14 +213,8 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
         if let Some(derive_meta) = derive_meta {
             let mut scale_items = Vec::new();
             let mut non_scale_items = Vec::new();
-            for name in utils::token_tree_to_non_delimited_meta_string(&derive_meta)
-                .replace(' ', "")
-                .split(',')
-                .map(str::trim)
-                // Ignores trailing delimiters.
-                .filter(|name| !name.is_empty())
-            {
-                if let Some(path) = ink_analyzer_ir::path_from_str(name) {
+            for name in utils::token_tree_to_meta_items(&derive_meta) {
+                if let Some(path) = ink_analyzer_ir::path_from_str(&name) {
                     let ref_node = attr
                         .syntax()
                         .parent()
@@ -237,10 +231,10 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
                     if let Some(scale_arg_kind) = scale_arg_kind {
                         scale_items.push(*scale_arg_kind);
                     } else {
-                        non_scale_items.push(name.to_owned());
+                        non_scale_items.push(name);
                     }
                 } else {
-                    non_scale_items.push(name.to_owned());
+                    non_scale_items.push(name);
                 }
             }
 
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 4926c8c..ad86bf1 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2184,3 +2184,28 @@ pub fn token_tree_to_non_delimited_meta_string(token_tree: &ast::TokenTree) -> S
         .take_while(|it| r_paren_option.is_none() || it.as_token() != r_paren_option.as_ref())
         .join("")
 }
+
+/// Converts token tree into a list of its non-empty comma-separated meta items
+/// (i.e. with brackets, whitespace and comments excluded).
+///
+/// # Example:
+/// `TokenTree` for `#[derive(scale::Encode, /* comment */ scale :: Decode)]` becomes
+/// ["scale::Encode", "scale::Decode"]
+pub fn token_tree_to_meta_items(token_tree: &ast::TokenTree) -> Vec<String> {
+    let r_paren_option = token_tree.r_paren_token();
+    let mut items = vec![String::new()];
+    for elem in token_tree
+        .syntax()
+        .children_with_tokens()
+        .skip(usize::from(token_tree.l_paren_token().is_some()))
+        .take_while(|it| r_paren_option.is_none() || it.as_token() != r_paren_option.as_ref())
+    {
+        if elem.kind() == SyntaxKind::COMMA {
+            items.push(String::new());
+        } else if let Some(item) = items.last_mut().filter(|_| !elem.kind().is_trivia()) {
+            item.push_str(&elem.to_string());
+        }
+    }
+    items.retain(|item| !item.is_empty());
+    items
+}
-- 
2.43.0


From 64eba6c7af33f503a2e23e590402e125b77a4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:15 +0000
Subject: [PATCH 66/66] fix: derive a codec trait once when migrating repeated
 conditional derives

---
 crates/analyzer/src/analysis/migrate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index c66a991..5b071bd 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -336,7 +336,10 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
     // Add `ink::scale_derive` attributes.
     for (insert_offset, scale_items) in scale_items_map.values() {
         results.push(TextEdit::insert(
-            format!("#[ink::scale_derive({})]", scale_items.iter().join(", ")),
+            format!(
+                "#[ink::scale_derive({})]",
+                scale_items.iter().unique().join(", ")
+            ),
             *insert_offset,
         ));
     }
-- 
2.43.0

