From f493c6d05ffd333b484a696969f98d437d901e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 01/13] fix: tree ids: check the slot, free it once, refuse
 stale ids before taking a slot

---
 src/tree.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..016462f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,11 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        if let Some(parent_id) = parent {
+            if !self.node_exists(parent_id) {
+                return Err(NodeDoesNotExist { node_id: parent_id });
+            }
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +99,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
@@ -139,7 +141,9 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
-        let node = &self.nodes[node_id.node_ptr];
+        let Ok(node) = self.get_node(node_id) else {
+            return children;
+        };
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
             let cur_children = &self.nodes[child_index];
@@ -196,7 +200,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +226,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -241,7 +245,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From aa5fc353dfa256e5275924976d9c6f18581b707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 02/13] fix: export the tree module, whose types the VM trait
 requires

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From 5247463b8819ef381abe27cacaf8e0c98f8a3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 03/13] fix: named graph: position lookup in an empty graph is
 an error, not a panic

---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From 47b41392e9ccd50a835c8cc5097766dcce78761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 04/13] fix: refuse left recursive grammars instead of
 overflowing the stack

---
 src/errors.rs        |  6 ++++++
 src/first_sets.rs    | 25 ++++++++++++++++++++-----
 src/script_parser.rs |  2 --
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..78aba07 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -95,6 +95,9 @@ pub enum GrammarError {
     MissingProduction {
         index: ElementIndex,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
     SteuerSetsNotDistinct {
         steuer_terminal: String,
         steuer_char: char,
@@ -133,6 +136,9 @@ impl fmt::Display for GrammarError {
             GrammarError::MissingProduction { index } => {
                 write!(f, " \"{index}\" not in productions")
             }
+            GrammarError::LeftRecursion { index } => {
+                write!(f, " \"{index}\" is left recursive")
+            }
             GrammarError::SteuerSetsNotDistinct { .. } => write!(f, "steuersets not distinct"),
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..dca9c5f 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -46,8 +46,9 @@ where
     T: VM,
 {
     let mut first_sets: NamedSets = HashMap::new();
+    let mut in_progress = HashSet::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, &mut in_progress, parser_data)?;
     }
     Ok(first_sets)
 }
@@ -55,6 +56,7 @@ where
 fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -67,10 +69,17 @@ where
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
+            // coming back to an element whose set is still being computed means that it can
+            // derive a text beginning with itself
+            if !in_progress.insert(el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus =
+                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
                 set.extend(&rus);
             }
+            in_progress.remove(&el_ix);
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -105,6 +114,7 @@ where
 fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -113,11 +123,16 @@ where
     match production {
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
-            let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+            let mut first_menge = get_set_first_set_of_element(
+                *el_ixs.first().unwrap(),
+                first_sets,
+                in_progress,
+                parser_data,
+            )?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set =
+                        get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..335a2cd 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From 8f2c1644245be7bff7e970bbba58dc3c64624371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 05/13] fix: steuer maps: predict alternatives by FIRST of the
 whole right side

---
 src/steuer_map.rs | 87 ++++++++++++++++++-----------------------------
 1 file changed, 34 insertions(+), 53 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..ae5d1ae 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -3,16 +3,18 @@
 //! A steuer map links a lookahead symbol to a specific production. This module
 //! turns FIRST/FOLLOW/Steuer information into executable tables used by Parser.
 use std::collections::{HashMap, HashSet};
+use std::convert::TryFrom;
+use std::mem;
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::first_sets::first_set_of_partial;
+use crate::parser_data::{ElementIndex, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
-use crate::errors::GrammarError::{MissingFollowSet, MissingSteuerSet, SteuerSetsNotDistinct};
+use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
 use crate::parser_data::Production;
-use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember};
-use crate::steuer_sets::get_steuer_sets;
+use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
 
 /// Forgot what NT means here. NonTerminal?
 pub struct NTRules<T>
@@ -29,25 +31,24 @@ pub type Steuermap = HashMap<SetMember, Rc<Production>>;
 pub fn get_steuermaps<T>(
     first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
-    parser_data: ParserData<T>,
+    mut parser_data: ParserData<T>,
 ) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError>
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
+    let rules = mem::take(&mut parser_data.parse_rules.rules);
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    for (rule_name, productions) in rules {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,54 +63,34 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+/// Enters a production under every symbol it can begin with and, if it can be empty, under every
+/// symbol that can follow the non-terminal.
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
-    let prod_ref = Rc::clone(&prod);
-    let prod = &*prod;
-    match prod {
-        Production::NotEmpty(el) => {
-            let first = el[0];
-            let et = el_types
-                .get(first)
-                .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
-                    if old_key.is_some() {
-                        return Err(SteuerSetsNotDistinct {
-                            steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
-                            rule_name: cur_rule_name.to_string(),
-                        });
-                    }
-                }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
-                }
-            }
-            Ok(())
-        }
-        Production::Empty => {
-            let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
-                index: cur_rule_name,
-            })?;
-            fill_with_steuer_set(follow_set, steuer_map, &prod_ref, cur_rule_name)?;
-
-            Ok(())
-        }
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
+    let first_set = match &*prod {
+        Production::NotEmpty(el) => first_set_of_partial(el, first_sets, parser_data)?,
+        Production::Empty => HashSet::from([SetMemberWithEmpty::Empty]),
+    };
+    let mut steuer_set = first_set
+        .iter()
+        .filter_map(|member| SetMember::try_from(*member).ok())
+        .collect::<HashSet<_>>();
+    if first_set.contains(&SetMemberWithEmpty::Empty) {
+        let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
+            index: cur_rule_name,
+        })?;
+        steuer_set.extend(follow_set);
     }
+    fill_with_steuer_set(&steuer_set, steuer_map, &prod, cur_rule_name)
 }
 
 fn fill_with_steuer_set(
-- 
2.43.0


From 5ceca591d4a91107a96b0ee71eae6d8efca3214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 06/13] fix: script parser: refuse text after the end of a
 sentence

---
 src/script_parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 335a2cd..76917f8 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -212,6 +212,13 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        if let Some(&chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos: to_parse.cur_pos(),
+                expected: String::from("end of input"),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From 60e39bb9136998b0035a6eaac3b2ada8225896a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 07/13] fix: parser from parser data starts at the given start
 symbol

---
 src/script_parser.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 76917f8..533ce0f 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -13,7 +13,7 @@ use crate::vms::VM;
 
 use crate::errors::GrammarError::MissingProduction;
 use crate::errors::ParserError;
-use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError};
+use crate::errors::ParserError::{EndOfCharsError, InternalError, UnexpectedCharError};
 use crate::first_sets::get_first_sets;
 use crate::follow_sets::get_follow_sets;
 use crate::peekables::{ParseProcess, PeekableWrapper, TPeekable};
@@ -58,6 +58,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// Index of the non-terminal a script is parsed as, if there is one
+    start_index: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -107,11 +109,7 @@ where
         .unwrap();
 
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
-        Parser {
-            vm,
-            rules_with_steuermaps,
-            elements,
-        }
+        Parser::new(rules_with_steuermaps, elements, vm)
     }
 
     /// Creates a new Parser from pre-parsed ParserData.
@@ -139,13 +137,15 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_index = Some(start_idx);
         parser
     }
 
     /// Creates a new Parser from pre-computed components.
     ///
     /// This is a low-level constructor that takes already computed steuer maps and elements.
+    /// The start symbol is the non-terminal called "start".
     ///
     /// # Arguments
     ///
@@ -161,10 +161,14 @@ where
         elements: Vec<ElementVerbose>,
         vm: &'a T,
     ) -> Parser<'a, T> {
+        let start_index = elements
+            .iter()
+            .position(|el| el.et == ElementType::NonTerminal && el.name == "start");
         Parser {
             vm,
             rules_with_steuermaps,
             elements,
+            start_index,
         }
     }
 
@@ -202,13 +206,9 @@ where
     ) -> Result<Tree<String>, ParserError> {
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
-        let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
-            })
-            .unwrap();
+        let start_index = self.start_index.ok_or_else(|| InternalError {
+            message: String::from("the grammar has no start symbol"),
+        })?;
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
-- 
2.43.0


From 3e5effe4713b110565ae3567ec08b62f67557efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 08/13] fix: readers: keep escape state in step with taken
 chars, peek_mut honours the stop char

---
 src/peekables.rs | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..e1ad5a6 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -135,10 +135,7 @@ where
             return None;
         }
         let res = self.to_parse.next();
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.note_taken(res)
     }
 }
 
@@ -154,6 +151,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
@@ -161,10 +161,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if(func);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.note_taken(res)
     }
 
     fn next_if_eq(&mut self, expected: &char) -> Option<char> {
@@ -172,10 +169,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if_eq(expected);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.note_taken(res)
     }
 }
 
@@ -183,20 +177,20 @@ impl<'a, T> ParseProcess<'a, T>
 where
     T: TPeekable<Item = char>,
 {
+    /// Whether the next char, if any, may be handed out. Changes nothing about the reader.
     fn check_allowed(&mut self) -> bool {
-        let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
-                return false;
-            } else {
-                self.escape = false;
-            }
+        match (self.to_parse.peek(), self.stop_on) {
+            (Some(&c), Some(stop_char)) => c != stop_char || self.escape,
+            _ => true,
         }
-        true
     }
-}
 
+    /// Keeps position and escape state in step with the char taken, if any.
+    fn note_taken(&mut self, taken: Option<char>) -> Option<char> {
+        if taken.is_some() {
+            self.current_position += 1;
+            self.escape = !self.escape && taken == self.escape_char;
+        }
+        taken
+    }
+}
-- 
2.43.0


From 36672e2986984212c0f7e908f3702d1e73ee8c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 09/13] fix: simple stack vm: flag results that do not fit
 instead of panicking or wrapping

---
 src/vms/simple_stack_vm.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..7fd43f4 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -10,6 +10,16 @@ pub struct SimpleStackVmState {
     pub error: usize,
 }
 
+impl SimpleStackVmState {
+    /// Pushes an exact result, or sets the error code if it could not be represented.
+    fn push_checked(&mut self, res: Option<usize>) {
+        match res {
+            Some(res) => self.stack.push(res),
+            None => self.error = 3,
+        }
+    }
+}
+
 pub enum Instruction {
     Add,
     RegAddConst(usize),
@@ -74,16 +84,14 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    state.push_checked(state.reg.checked_add(var));
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    state.push_checked(var.checked_sub(state.reg));
                 } else {
                     state.error = 1
                 }
@@ -143,8 +151,12 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exp| base.checked_pow(exp))
+                        .and_then(|pow| val.checked_mul(pow))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    state.push_checked(res);
                 } else {
                     state.error = 1
                 }
@@ -152,7 +164,10 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = 3,
+                }
             }
         }
     }
-- 
2.43.0


From 34491004893b7e54ea7b2e3d77e0e29bd018e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 10/13] fix: stack vm: flag results that do not fit instead of
 panicking or wrapping

---
 src/vms/stack_vm.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..a57f364 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -32,6 +32,17 @@ pub struct StackVmState {
     pub instruction_counter: usize,
     pub instructions: Vec<Instruction>,
 }
+
+impl StackVmState {
+    /// Pushes an exact result, or sets the error code if it could not be represented.
+    fn push_checked(&mut self, res: Option<isize>) {
+        match res {
+            Some(res) => self.stack.push(res),
+            None => self.error = 3,
+        }
+    }
+}
+
 pub struct StackVm {}
 
 impl VM for StackVm {
@@ -98,16 +109,14 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    state.push_checked(state.reg.checked_add(var));
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    state.push_checked(var.checked_sub(state.reg));
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +176,13 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exp| base.checked_pow(exp))
+                        .and_then(|pow| isize::try_from(pow).ok())
+                        .and_then(|pow| val.checked_mul(pow))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    state.push_checked(res);
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +190,10 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = 3,
+                }
             }
         }
     }
-- 
2.43.0


From fc24d5214bf65e11c317d4745028d8bdc7cc80e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 11/13] fix: stack vm: refuse instruction operands that do not
 fit

---
 src/vms/stack_vm.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index a57f364..8517d58 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -1,4 +1,5 @@
 use crate::errors::ParserError;
+use crate::errors::ParserError::Impossible;
 use crate::parse_funcs::{parse_var_name, parse_whitespace};
 use crate::peekables::{ParseProcess, TPeekable};
 use crate::tree::{NodeId, Tree};
@@ -67,8 +68,8 @@ impl VM for StackVm {
                 "Add" => instructions.push(Instruction::Add),
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    let val = parse_operand(to_parse)?;
+                    instructions.push(Instruction::RegAddConst(val));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -77,8 +78,8 @@ impl VM for StackVm {
                 "PopDiscard" => instructions.push(Instruction::PopDiscard),
                 "PushConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    let val = parse_operand(to_parse)?;
+                    instructions.push(Instruction::PushConst(val));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
@@ -209,3 +210,10 @@ impl VM for StackVm {
         }
     }
 }
+
+fn parse_operand<T>(to_parse: &mut ParseProcess<T>) -> Result<isize, ParserError>
+where
+    T: TPeekable<Item = char>,
+{
+    isize::try_from(parse_usize(to_parse)?).map_err(|_| Impossible)
+}
-- 
2.43.0


From e19d218369b21118c5bc50195d8d120983725e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 12/13] fix: the counting VM consumes the instruction section,
 whatever it contains

---
 src/vms/counting_vm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 2e3dbf5..a6bf540 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -19,11 +19,13 @@ impl VM for CountingVm {
     fn parse_instructions<T>(
         &self,
         _prod_name: &str,
-        _to_parse: &mut ParseProcess<T>,
+        to_parse: &mut ParseProcess<T>,
     ) -> Result<Vec<Self::Tinstrution>, ParserError>
     where
         T: TPeekable<Item = char>,
     {
+        // the section has to be consumed, whatever it contains
+        while to_parse.next().is_some() {}
         Ok(vec![0])
     }
 
-- 
2.43.0


From 021687e91f312b177458bd273c235c2afb6411de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 13/13] fix: an index that is no element is refused with an
 error instead of a panic

---
 src/first_sets.rs    |  5 ++++-
 src/rule_parsing.rs  |  7 +++++--
 src/script_parser.rs | 10 ++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/first_sets.rs b/src/first_sets.rs
index dca9c5f..b735b52 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -96,7 +96,10 @@ fn get_first_set_of_element<T>(
 where
     T: VM,
 {
-    let et = parser_data.element_types[el_ix];
+    let et = parser_data
+        .element_types
+        .get(el_ix)
+        .ok_or(GrammarError::MissingElementForIndex { index: el_ix })?;
     let res = match et {
         ElementType::NonTerminal => first_sets.get(&el_ix).map(|entry| (*entry).clone()),
         ElementType::Terminal => {
diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..ded761a 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -10,7 +10,7 @@ use std::mem;
 use std::rc::Rc;
 use std::str::Chars;
 
-use crate::errors::GrammarError::UnexpectedElementError;
+use crate::errors::GrammarError::{MissingElementForIndex, UnexpectedElementError};
 use crate::errors::ParserError;
 use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError};
 use crate::parse_funcs::{parse_symbol, parse_var_name, parse_whitespace};
@@ -379,7 +379,10 @@ fn _check_is_derivative<T>(
 where
     T: VM,
 {
-    if let ElementType::Terminal = element_types.get(left).unwrap() {
+    let element_type = element_types
+        .get(left)
+        .ok_or(MissingElementForIndex { index: left })?;
+    if let ElementType::Terminal = element_type {
         return Ok(false);
     }
     let prods = &parse_rules
diff --git a/src/script_parser.rs b/src/script_parser.rs
index 533ce0f..0e534ad 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -11,7 +11,7 @@ use crate::parser_data::{ElementIndex, ElementType, ElementVerbose, ParserData,
 use crate::tree::{NodeId, Tree};
 use crate::vms::VM;
 
-use crate::errors::GrammarError::MissingProduction;
+use crate::errors::GrammarError::{MissingElementForIndex, MissingProduction};
 use crate::errors::ParserError;
 use crate::errors::ParserError::{EndOfCharsError, InternalError, UnexpectedCharError};
 use crate::first_sets::get_first_sets;
@@ -270,7 +270,13 @@ where
         match prod {
             Production::NotEmpty(prod_not_empty) => {
                 for next_element_index in prod_not_empty {
-                    let element_next = self.elements.get(*next_element_index).unwrap().clone();
+                    let element_next = self
+                        .elements
+                        .get(*next_element_index)
+                        .ok_or(MissingElementForIndex {
+                            index: *next_element_index,
+                        })?
+                        .clone();
 
                     match element_next.et {
                         ElementType::Terminal => {
-- 
2.43.0

