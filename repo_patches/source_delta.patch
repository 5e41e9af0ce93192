From 2f5ee0c758f804311e507d48a11edf1e3803b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 01/36] fix: a selector that ends early is an error, not a
 panic under the rule locks

'#', '.', '[a' or ':nth-child(2' ran a pattern on an empty rest and panicked on
chars[0] while the global rule mutexes were held, so every later selector in the
process panicked on the poisoned locks.
---
 src/mesdoc/selector/pattern.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..b784a45 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,14 +44,13 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
-			return Some(Matched {
-				chars: vec![ch],
+		match chars.first() {
+			Some(ch) if ch == self => Some(Matched {
+				chars: vec![*ch],
 				..Default::default()
-			});
+			}),
+			_ => None,
 		}
-		None
 	}
 }
 
@@ -92,10 +91,10 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
 		let name: &str = "identity";
-		if !(first.is_ascii_alphabetic() || first == '_') {
-			return None;
+		match chars.first() {
+			Some(first) if first.is_ascii_alphabetic() || *first == '_' => {}
+			_ => return None,
 		}
 		// allow translate character '\': fix issue #2
 		let mut is_in_translate = false;
-- 
2.43.0


From 65e73e115196d5fc3d3941d910f697941de8a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 02/36] fix: an unclosed nested selector is an error, not a
 panic under the rule locks

':not(' and ':has(a' reached the rule handler without the nested part and panicked
on data[2] with the global rule mutexes held.
---
 src/mesdoc/selector/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..25b8995 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -374,10 +374,14 @@ impl Selector {
 						}
 					}
 				}
-				break;
+				return Ok((index, matched));
 			}
 		}
-		Ok((index, matched))
+		// the chars run out before the nested selector is closed
+		Err(Error::InvalidSelector {
+			context: chars.iter().collect::<String>(),
+			reason: String::from("Nested selector is not closed"),
+		})
 	}
 }
 
-- 
2.43.0


From 195cdcf2d2151525a3fd530575dcd2a03419c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 03/36] fix: numbers out of range in nth expressions no longer
 panic

':nth-child(99999999999999999999)' panicked with the global rule mutexes held.
---
 src/mesdoc/rules/pseudo.rs     | 10 +++++-----
 src/mesdoc/selector/pattern.rs | 23 ++++++++++++++++-------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..17c053c 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -16,11 +16,11 @@ use std::{collections::HashMap, ops::Range};
 const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 
 fn nth_index_to_number(index: &Option<String>) -> isize {
-	index
-		.as_ref()
-		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
+	Nth::parse_number(
+		index
+			.as_ref()
+			.expect("Nth's n and index must have one"),
+	)
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index b784a45..bcdb73c 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -246,6 +246,15 @@ impl Pattern for Nth {
 }
 
 impl Nth {
+	/// parse the number of a nth expression, a number out of range is limited to the range
+	pub fn parse_number(num: &str) -> isize {
+		const LIMIT: isize = i32::MAX as isize;
+		match num.parse::<isize>() {
+			Ok(num) => num.clamp(-LIMIT, LIMIT),
+			Err(_) if num.starts_with('-') => -LIMIT,
+			Err(_) => LIMIT,
+		}
+	}
 	fn get_number(data: &MatchedData, keys: (&str, &str), def: Option<String>) -> Option<String> {
 		const MINUS: &str = "-";
 		if let Some(idx) = data.get(keys.0).or(def.as_ref()) {
@@ -267,10 +276,10 @@ impl Nth {
 	) -> Vec<usize> {
 		// has n
 		if let Some(n) = n {
-			let n = n.parse::<isize>().unwrap();
+			let n = Nth::parse_number(n);
 			let index = index
 				.as_ref()
-				.map(|index| index.parse::<isize>().unwrap())
+				.map(|index| Nth::parse_number(index))
 				.unwrap_or(0);
 			// n == 0
 			if n == 0 {
@@ -330,11 +339,11 @@ impl Nth {
 			return allow_indexs;
 		}
 		// only index
-		let index = index
-			.as_ref()
-			.expect("Nth must have 'index' value when 'n' is not setted.")
-			.parse::<isize>()
-			.expect("Nth's index is not a correct number");
+		let index = Nth::parse_number(
+			index
+				.as_ref()
+				.expect("Nth must have 'index' value when 'n' is not setted."),
+		);
 		if index <= 0 || index > (total as isize) {
 			return vec![];
 		}
-- 
2.43.0


From 7a78dee8ab5d4a93b339d7b998df77d35d7f0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 04/36] fix: round quotients between -1 and 1 to the right side

':nth-child(3n-1)' and ':nth-child(4n+5)' produced indexes outside the siblings
and panicked.
---
 src/mesdoc/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..1e338b1 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -86,13 +86,13 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	match round {
 		Floor => {
 			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			if remainder != 0 && (remainder < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
 			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			if remainder != 0 && (remainder < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From 1d51bf71869dceec64bc942bcc83f92f6eba1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 05/36] fix: ':last-child' and friends below an element without
 child nodes

---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 17c053c..ab0f99f 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -172,6 +172,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -528,6 +531,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From b5a80e7ad85bcf539e7adc3ede4f5ed1314e4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 06/36] fix: the selector rules are ready whichever api is
 called first

---
 src/mesdoc/selector/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index 25b8995..1fe8970 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -1,7 +1,7 @@
 pub mod pattern;
 pub mod rule;
 use self::{pattern::BoxDynPattern, rule::Matcher};
-use crate::mesdoc::{constants::NAME_SELECTOR_ALL, error::Error};
+use crate::mesdoc::{constants::NAME_SELECTOR_ALL, error::Error, init};
 use lazy_static::lazy_static;
 pub use pattern::MatchedQueue;
 use pattern::{exec, Matched};
@@ -98,6 +98,8 @@ impl Selector {
 			let mut prev_in = PrevInSelector::Begin;
 			let mut last_in = prev_in;
 			let mut groups: SelectorGroups = Vec::new();
+			// the rules must be ready whichever api is called first
+			init();
 			let splitter = SPLITTER.lock().unwrap();
 			let rules = RULES.lock().unwrap();
 			Selector::add_group(&mut groups);
@@ -288,6 +290,7 @@ impl Selector {
 	}
 	// make '*' with combinator
 	pub fn make_comb_all(comb: Combinator) -> SelectorSegment {
+		init();
 		let mut all_rule = ALL_RULE.lock().unwrap();
 		if all_rule.is_none() {
 			let rules = RULES.lock().unwrap();
-- 
2.43.0


From c6c6f6cacbf321dbecc2031833dc7ea1656f0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 07/36] fix: an invalid selector on an empty set does not panic

---
 src/mesdoc/interface/elements.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..b817d0c 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,15 +124,14 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
-			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
-				method: String::from(method),
-				error: error.to_string(),
-			}));
+		// an empty set has no document to report to
+		if let Some(ele) = self.get(0) {
+			if let Some(doc) = &ele.owner_document() {
+				doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
+					method: String::from(method),
+					error: error.to_string(),
+				}));
+			}
 		}
 	}
 	/*-----------create a elements----------------*/
-- 
2.43.0


From dd7fbb83eb4e74be7907ca12b3af15522bf9cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 08/36] fix: 'last' of an empty set and 'slice' of an empty
 range return an empty set

---
 src/mesdoc/interface/elements.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b817d0c..ca189d5 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2520,7 +2520,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		self.eq(self.length().saturating_sub(1))
 	}
 
 	/// Get a subset specified by a range of indices.
@@ -2583,12 +2583,16 @@ impl<'a> Elements<'a> {
 				}
 			}
 			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
+				let cur_end = cur_end.saturating_add(1);
 				if cur_end < end {
 					end = cur_end;
 				}
 			}
 		}
+		if start >= end {
+			// empty
+			return Elements::new();
+		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
 		for ele in &eles[start..end] {
-- 
2.43.0


From 65f485637c72b9558c3c46b682e1131e5599d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 09/36] fix: removing an attribute ignores case, setting one
 again renews its quote

---
 src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..455d283 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -708,9 +708,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			} else {
 				None
 			};
+			let quote = if value.is_some() { Some(quote) } else { None };
 			// find the attribute, just set the value
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				attr.value = value;
+				attr.quote = quote;
+				attr.need_quote = need_quote;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
@@ -718,7 +722,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			// insert name and index into name map
 			meta.borrow_mut().lc_name_map.insert(lc_name, index);
 			// add to attrs
-			let quote = if value.is_some() { Some(quote) } else { None };
 			meta.borrow_mut().attrs.push(Attr {
 				key: Some(AttrData {
 					content: name.chars().collect(),
@@ -734,8 +737,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn remove_attribute(&mut self, name: &str) {
 		if let Some(meta) = &self.borrow().meta {
 			let mut find_index: Option<usize> = None;
+			let lc_name = name.to_ascii_lowercase();
 			if !meta.borrow().lc_name_map.is_empty() {
-				let lc_name = name.to_ascii_lowercase();
 				if let Some(&index) = meta.borrow().lc_name_map.get(&lc_name) {
 					find_index = Some(index);
 				}
@@ -744,7 +747,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// set attr data as null data
 				meta.borrow_mut().attrs[index] = Attr::default();
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta.borrow_mut().lc_name_map.remove(&lc_name);
 			}
 		}
 	}
-- 
2.43.0


From ff1e7700ea5ff675ac96643e17e71949f8d2183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 10/36] fix: removing or toggling several class names in any
 order

---
 src/mesdoc/interface/elements.rs | 46 +++++++++-----------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index ca189d5..a104b85 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -15,10 +15,7 @@ use crate::mesdoc::{
 		Combinator, QueryProcess, Selector, SelectorSegment,
 	},
 };
-use crate::mesdoc::{
-	selector::rule::MatchSpecifiedHandle,
-	utils::{get_class_list, retain_by_index},
-};
+use crate::mesdoc::{selector::rule::MatchSpecifiedHandle, utils::get_class_list};
 use std::collections::HashMap;
 use std::collections::HashSet;
 use std::{
@@ -3440,14 +3437,9 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						}
-					}
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() != orig_total {
 						ele.set_attribute(
 							ATTR_CLASS,
 							Some(class_list_to_string(&orig_class_list).as_str()),
@@ -3490,35 +3482,21 @@ impl<'a> Elements<'a> {
 		let class_name = class_name.trim();
 		if !class_name.is_empty() {
 			let class_list = get_class_list(class_name);
-			let total = class_list.len();
 			for ele in self.get_mut_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
-					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
 					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						} else {
-							added_class_list.push(class_name.clone());
+						let total = orig_class_list.len();
+						orig_class_list.retain(|name| name != class_name);
+						if orig_class_list.len() == total {
+							orig_class_list.push(class_name.clone());
 						}
 					}
-					let mut need_set = false;
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
-						need_set = true;
-					}
-					if !added_class_list.is_empty() {
-						orig_class_list.extend(added_class_list);
-						need_set = true;
-					}
-					if need_set {
-						ele.set_attribute(
-							ATTR_CLASS,
-							Some(class_list_to_string(&orig_class_list).as_str()),
-						);
-					}
+					ele.set_attribute(
+						ATTR_CLASS,
+						Some(class_list_to_string(&orig_class_list).as_str()),
+					);
 					continue;
 				}
 				ele.set_attribute(ATTR_CLASS, Some(class_name));
-- 
2.43.0


From ea4d105095aac2970f1c226156c98cb49ac9d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 11/36] fix: 'add' keeps every element when the sets share the
 last one

---
 src/mesdoc/interface/elements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index a104b85..96c67c1 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2723,7 +2723,7 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
-- 
2.43.0


From 2e1715e6d5122d0f466950833b48591d4d3a5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:44 +0000
Subject: [PATCH 12/36] fix: reading an attribute of a document or a fragment
 does not panic

---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 455d283..3be2d87 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -611,10 +611,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn get_attribute(&self, name: &str) -> Option<IAttrValue> {
 		// use lowercase to get attribute: issue: #2
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		// a document or a fragement don't have attributes
+		let meta = node.meta.as_ref()?;
 		// if has meta, then compare with lowercase
 		let lc_name_map = &meta.borrow().lc_name_map;
 		if !lc_name_map.is_empty() {
@@ -634,10 +632,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	fn get_attributes(&self) -> Vec<(String, IAttrValue)> {
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			// a document or a fragement don't have attributes
+			None => return vec![],
+		};
 		let attrs = &meta.borrow().attrs;
 		let attr_map = meta
 			.borrow()
-- 
2.43.0


From 3b1d8f8079c47c79be1f048f33eb00435e8ddb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:48 +0000
Subject: [PATCH 13/36] fix: appending text to an emptied content tag does not
 panic

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3be2d87..e5747bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -413,20 +413,22 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// append text
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let node = &mut *self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.extend(chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let node = &mut *self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.splice(0..0, chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 	}
-- 
2.43.0


From d6ac3b330693b99f795cf0c663185b700f053021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:06 +0000
Subject: [PATCH 14/36] fix: 'set_html' reports malformed html to the document
 instead of a panic

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5747bd..34c3058 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -336,8 +336,15 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						allow_attr_key_starts_with_equal_sign: true,
 						..Default::default()
 					},
-				)
-				.unwrap();
+				);
+				let doc_holder = match doc_holder {
+					Ok(doc_holder) => doc_holder,
+					Err(error) => {
+						// wrong html, report it and keep the content
+						Dom::halt(self, "set_html", &error.to_string());
+						return;
+					}
+				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
 					let has_not_allowed = remove_not_allowed_nodes(
-- 
2.43.0


From b005864ab04afeebb5ffab1e713bc06ac9f9aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:10 +0000
Subject: [PATCH 15/36] fix: 'set_html' of a text node at the top level does
 not panic

---
 src/lib.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 34c3058..172bc39 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -315,15 +315,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			// the parent of a text node may be a root node, it has no tag name
+			let tag_name = target
+				.borrow()
+				.meta
+				.as_ref()
+				.map_or_else(Vec::new, |meta| meta.borrow().name.clone());
+			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
@@ -347,16 +345,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
+					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
 					let has_nodes = !nodes.is_empty();
 					if has_nodes {
 						// set nodes parent as target
-- 
2.43.0


From d450232bfa57c84a5614eab681c8e2baca71039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:08 +0000
Subject: [PATCH 16/36] fix: 'set_html' of a text node with empty html keeps
 the siblings

---
 src/lib.rs | 73 +++++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 172bc39..5aa9a4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -343,46 +343,47 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						return;
 					}
 				};
-				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
-					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
-					let has_nodes = !nodes.is_empty();
-					if has_nodes {
-						// set nodes parent as target
-						for node in &nodes {
-							node.borrow_mut().parent = Some(Rc::downgrade(target));
-						}
+				// empty html has no nodes
+				let mut nodes = doc_holder
+					.get_root_node()
+					.borrow_mut()
+					.childs
+					.take()
+					.unwrap_or_default();
+				let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
+				let has_nodes = !nodes.is_empty();
+				if has_nodes {
+					// set nodes parent as target
+					for node in &nodes {
+						node.borrow_mut().parent = Some(Rc::downgrade(target));
 					}
-					if is_element {
-						// reset node indexs
-						if has_not_allowed {
-							reset_next_siblings_index(0, &nodes);
-						}
-						// set childs as new nodes
-						(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
-					} else if let Some(childs) = &mut target.borrow_mut().childs {
-						let index = self.index();
-						// not last node, whenever nodes is empty or not, reset next childs indexs
-						if index < childs.len() - 1 {
-							// change next siblings index begin with index+nodes.len
-							reset_next_siblings_index(index + nodes.len(), &childs[index + 1..]);
-						}
-						// delete the node and append childs
-						if has_nodes {
-							// change append nodes index begin with index
-							reset_next_siblings_index(index, &nodes);
-							// remove self and insert nodes
-							childs.splice(index..index + 1, nodes);
-						} else {
-							// then just remove self
-							childs.remove(index);
-						}
+				}
+				if is_element {
+					// reset node indexs
+					if has_not_allowed {
+						reset_next_siblings_index(0, &nodes);
+					}
+					// set childs as new nodes
+					(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
+				} else if let Some(childs) = &mut target.borrow_mut().childs {
+					let index = self.index();
+					// not last node, whenever nodes is empty or not, reset next childs indexs
+					if index < childs.len() - 1 {
+						// change next siblings index begin with index+nodes.len
+						reset_next_siblings_index(index + nodes.len(), &childs[index + 1..]);
+					}
+					// delete the node and append childs
+					if has_nodes {
+						// change append nodes index begin with index
+						reset_next_siblings_index(index, &nodes);
+						// remove self and insert nodes
+						childs.splice(index..index + 1, nodes);
 					} else {
-						// text node's parent can't be empty
+						// then just remove self
+						childs.remove(index);
 					}
 				} else {
-					// empty html, just set childs to none
-					target.borrow_mut().childs = None;
+					// text node's parent can't be empty
 				}
 			}
 		}
-- 
2.43.0


From f7a0dcabc2b74be33a3817f69fe6a1d31cbf9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 17/36] fix: a node removed from the tree has no parent any
 more

---
 src/lib.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5aa9a4b..23a467a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,13 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// the nodes are removed from the tree, they don't have a parent any more
+fn detach_nodes(nodes: Option<Vec<RefNode>>) {
+	for node in nodes.unwrap_or_default() {
+		node.borrow_mut().parent = None;
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -266,6 +273,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						// set text node parent
 						text_node.parent = Some(Rc::downgrade(self));
 						// set childs
+						detach_nodes(node.childs.take());
 						node.childs = Some(vec![Rc::new(RefCell::new(text_node))]);
 					} else {
 						node.content = Some(content.chars().collect::<Vec<char>>());
@@ -273,7 +281,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				} else {
 					// empty content
 					if no_content_tag {
-						node.childs = None;
+						detach_nodes(node.childs.take());
 					} else {
 						node.content = None;
 					}
@@ -364,6 +372,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						reset_next_siblings_index(0, &nodes);
 					}
 					// set childs as new nodes
+					detach_nodes(target.borrow_mut().childs.take());
 					(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
 				} else if let Some(childs) = &mut target.borrow_mut().childs {
 					let index = self.index();
@@ -382,6 +391,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						// then just remove self
 						childs.remove(index);
 					}
+					self.borrow_mut().parent = None;
 				} else {
 					// text node's parent can't be empty
 				}
@@ -395,14 +405,14 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
 			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
-				if let Some(parent) = parent.upgrade() {
-					if let Some(childs) = &mut parent.borrow_mut().childs {
-						// remove the text node
-						childs.remove(index);
-						// change next siblings index
-						reset_next_siblings_index(index, &childs[index..]);
-					}
+			// the node doesn't have a parent any more
+			let parent = self.borrow_mut().parent.take();
+			if let Some(parent) = parent.and_then(|parent| parent.upgrade()) {
+				if let Some(childs) = &mut parent.borrow_mut().childs {
+					// remove the text node
+					childs.remove(index);
+					// change next siblings index
+					reset_next_siblings_index(index, &childs[index..]);
 				}
 			}
 		}
@@ -795,7 +805,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 							reset_next_siblings_index(index, &childs[index + 1..]);
 						}
 						// remove child
-						childs.remove(index);
+						childs.remove(index).borrow_mut().parent = None;
 					}
 				}
 			}
-- 
2.43.0


From 701181da4715097a849cbad7b22395d6c97390b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:55 +0000
Subject: [PATCH 18/36] fix: inserted elements keep their order, a replaced one
 gets them all

---
 src/mesdoc/interface/elements.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 96c67c1..0c5e096 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3642,17 +3642,31 @@ impl<'a> Elements<'a> {
 	cfg_feat_insertion! {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
+			// keep the order of the inserted elements
+			let is_reverse = matches!(
+				position,
+				InsertPosition::AfterBegin | InsertPosition::AfterEnd
+			);
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.insert_adjacent(position, inserted);
+				if is_reverse {
+					for inserted in dest.get_ref().iter().rev() {
+						ele.insert_adjacent(position, inserted);
+					}
+				} else {
+					for inserted in dest.get_ref() {
+						ele.insert_adjacent(position, inserted);
+					}
 				}
 			}
 		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.replace_with(inserted);
+				if let Some((first, rest)) = dest.get_ref().split_first() {
+					for inserted in rest.iter().rev() {
+						ele.insert_adjacent(&InsertPosition::AfterEnd, inserted);
+					}
+					ele.replace_with(first);
 				}
 			}
 		}
-- 
2.43.0


From a01ee9e42693cc9b86d1562dc9582d46b63b31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 19/36] fix: inserted nodes belong to the document they are
 inserted into

---
 src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23a467a..1cbbdce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,7 +36,7 @@ use rphtml::{
 };
 use std::borrow::Cow;
 use std::collections::BTreeMap;
-use std::rc::Rc;
+use std::rc::{Rc, Weak};
 use std::{any::Any, cell::RefCell};
 // re export `IAttrValue` `IEnumTyped` `INodeType`
 pub mod types {
@@ -130,6 +130,20 @@ fn detach_nodes(nodes: Option<Vec<RefNode>>) {
 	}
 }
 
+// the nodes now belong to the document of the node they are inserted next to or into
+fn adopt_nodes(dom: &RefNode, nodes: &[RefNode]) {
+	fn set_root(nodes: &[RefNode], root: &Option<Weak<RefCell<Node>>>) {
+		for node in nodes {
+			node.borrow_mut().root = root.clone();
+			if let Some(childs) = &node.borrow().childs {
+				set_root(childs, root);
+			}
+		}
+	}
+	let root = dom.borrow().root.clone();
+	set_root(nodes, &root);
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -272,6 +286,8 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						let mut text_node = Node::create_text_node(content.to_chars().unwrap(), None);
 						// set text node parent
 						text_node.parent = Some(Rc::downgrade(self));
+						// set text node root
+						text_node.root = node.root.clone();
 						// set childs
 						detach_nodes(node.childs.take());
 						node.childs = Some(vec![Rc::new(RefCell::new(text_node))]);
@@ -365,6 +381,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					for node in &nodes {
 						node.borrow_mut().parent = Some(Rc::downgrade(target));
 					}
+					adopt_nodes(target, &nodes);
 				}
 				if is_element {
 					// reset node indexs
@@ -852,6 +869,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty() {
 					return;
 				}
+				adopt_nodes(self, &nodes);
 				match position {
 					BeforeBegin | AfterEnd => {
 						// get index first, for borrow check
@@ -965,6 +983,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty(){
 					return;
 				}
+				adopt_nodes(self, &nodes);
 				// get index first, for borrow check
 				let index = self.index();
 				let insert_len = nodes.len();
-- 
2.43.0


From 21501ba4b259b4b98ce7c3a824ca821c4a5364b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:58 +0000
Subject: [PATCH 20/36] fix: an inserted fragment's nodes move, a refused
 insertion leaves the node where it is

---
 src/lib.rs                       | 89 ++++++++++++++++++--------------
 src/mesdoc/interface/elements.rs | 26 +++++++---
 2 files changed, 71 insertions(+), 44 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1cbbdce..2548839 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -837,19 +837,35 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if !Dom::validate_dom_change(self, node, action) {
 				return;
 			}
+			use InsertPosition::*;
+			let is_child = matches!(position, AfterBegin | BeforeEnd);
+			// a node without a parent can't have siblings
+			if !is_child && self.parent().is_none() {
+				return;
+			}
+			let tag_name = self.tag_names();
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			if let Ok(dom) = specified.downcast::<RefNode>() {
 				// get the nodes
 				let mut nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
+						// the childs move out of the fragement, those not allowed stay there
+						let childs = dom.borrow_mut().childs.take().unwrap_or_default();
+						let (nodes, rest): (Vec<RefNode>, Vec<RefNode>) = childs
+							.into_iter()
+							.partition(|child| !is_child || allow_insert(&tag_name, child.borrow().node_type));
+						if !rest.is_empty() {
+							reset_next_siblings_index(0, &rest);
+							dom.borrow_mut().childs = Some(rest);
 						}
+						nodes
 					}
 					_ => {
+						// not allowed, keep the node where it is
+						if is_child && !allow_insert(&tag_name, dom.borrow().node_type) {
+							return;
+						}
 						// remove current node from parent's childs
 						if let Some(parent) = &mut node.parent() {
 							parent.remove_child(node.cloned());
@@ -857,14 +873,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						vec![*dom]
 					}
 				};
-				// filter the node allowed
-				let tag_name = self.tag_names();
-				// insert
-				use InsertPosition::*;
-				// remove not allowed nodes, only insert childs
-				if matches!(position, AfterBegin | BeforeEnd){
-					remove_not_allowed_nodes(&tag_name, &mut nodes);
-				}
 				// check if is empty
 				if nodes.is_empty() {
 					return;
@@ -954,6 +962,15 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			// base validate
+			let action = "replace with";
+			if !Dom::validate_dom_change(self, node, action) {
+				return;
+			}
+			// a node without a parent can't be replaced
+			if self.parent().is_none() {
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
@@ -961,14 +978,12 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get the nodes
 				let nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							if childs.len() == 1 {
-								replace_ele = Some(Rc::clone(&childs[0]));
-							}
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
+						// the childs move out of the fragement
+						let childs = dom.borrow_mut().childs.take().unwrap_or_default();
+						if childs.len() == 1 {
+							replace_ele = Some(Rc::clone(&childs[0]));
 						}
+						childs
 					}
 					_ => {
 						// remove current node from parent's childs
@@ -987,32 +1002,30 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get index first, for borrow check
 				let index = self.index();
 				let insert_len = nodes.len();
-				// replace with nodes
-				if let Some(parent) = &self.borrow_mut().parent {
-					if let Some(parent) = &parent.upgrade() {
-						if let Some(childs) = &mut parent.borrow_mut().childs {
-							let next_index = index + 1;
-							// reset node indexs
-							reset_next_siblings_index(index, &nodes);
-							// reset next childs indexs
-							if index < childs.len(){
-								reset_next_siblings_index(index + insert_len, &childs[next_index..]);
-							}
-							// set node parent
-							for node in &nodes {
-								node.borrow_mut().parent = Some(Rc::downgrade(parent));
-							}
-							// delete current index node
-							// insert replace nodes
-							childs.splice(index..next_index, nodes);
+				// replace with nodes, the current node doesn't have a parent any more
+				let parent = self.borrow_mut().parent.take();
+				if let Some(parent) = &parent.and_then(|parent| parent.upgrade()) {
+					if let Some(childs) = &mut parent.borrow_mut().childs {
+						let next_index = index + 1;
+						// reset node indexs
+						reset_next_siblings_index(index, &nodes);
+						// reset next childs indexs
+						if index < childs.len(){
+							reset_next_siblings_index(index + insert_len, &childs[next_index..]);
+						}
+						// set node parent
+						for node in &nodes {
+							node.borrow_mut().parent = Some(Rc::downgrade(parent));
 						}
+						// delete current index node
+						// insert replace nodes
+						childs.splice(index..next_index, nodes);
 					}
 				}
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
 			} else {
-				let action = "replace with";
 				Dom::halt(
 					self,
 					action,
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 0c5e096..50bfa5e 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3,7 +3,7 @@ cfg_feat_text! {
 	use super::{BoxDynText, Texts};
 }
 cfg_feat_insertion! {
-	use super::InsertPosition;
+	use super::{INodeType, InsertPosition};
 }
 use super::{BoxDynElement, IAttrValue, IElementTrait, IFormValue, MaybeDoc};
 use crate::mesdoc::error::BoxDynError;
@@ -3640,6 +3640,16 @@ impl<'a> Elements<'a> {
 	}
 	// when feature 'insertion' is open
 	cfg_feat_insertion! {
+		// the childs of a fragement can only move to one target, the targets before the last get copies
+		fn nodes_for_target(&self, is_last: bool) -> Vec<BoxDynElement<'a>> {
+			self.map(|_, ele| {
+				if !is_last && matches!(ele.node_type(), INodeType::DocumentFragement) {
+					ele.copied()
+				} else {
+					ele.cloned()
+				}
+			})
+		}
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
 			// keep the order of the inserted elements
@@ -3647,13 +3657,15 @@ impl<'a> Elements<'a> {
 				position,
 				InsertPosition::AfterBegin | InsertPosition::AfterEnd
 			);
-			for ele in self.get_mut_ref() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				let nodes = dest.nodes_for_target(index + 1 == total);
 				if is_reverse {
-					for inserted in dest.get_ref().iter().rev() {
+					for inserted in nodes.iter().rev() {
 						ele.insert_adjacent(position, inserted);
 					}
 				} else {
-					for inserted in dest.get_ref() {
+					for inserted in &nodes {
 						ele.insert_adjacent(position, inserted);
 					}
 				}
@@ -3661,8 +3673,10 @@ impl<'a> Elements<'a> {
 		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
-			for ele in self.get_mut_ref() {
-				if let Some((first, rest)) = dest.get_ref().split_first() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				let nodes = dest.nodes_for_target(index + 1 == total);
+				if let Some((first, rest)) = nodes.split_first() {
 					for inserted in rest.iter().rev() {
 						ele.insert_adjacent(&InsertPosition::AfterEnd, inserted);
 					}
-- 
2.43.0


From 8c49af4c38b6256457207523db392f692651cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:39 +0000
Subject: [PATCH 21/36] fix: 'filter_by' of texts that contain a content tag
 does not panic

---
 src/mesdoc/interface/texts.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..5e28ef4 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,14 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				let text = match ele.clone_node().typed() {
+					// a content tag
+					IEnumTyped::Element(ele) => ele.into_text().ok(),
+					typed => typed.into_text(),
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From 06c7d231f13dd0786b9697be0530ab22f26a39b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:07 +0000
Subject: [PATCH 22/36] fix: '#id' follows the current tree

---
 src/lib.rs             | 35 ++++++++++++++++++++++++++++--
 src/mesdoc/rules/id.rs | 49 ++++++++++++++++++++++++++----------------
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2548839..c3e7d1d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,6 +159,23 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 	now_allowed_len > 0 && now_allowed_len != orig_len
 }
 
+// find the first element who's id attribute is the given id
+fn find_by_id<'b>(parent: &RefNode, id: &str) -> MaybeElement<'b> {
+	if let Some(childs) = &parent.borrow().childs {
+		for child in childs {
+			if matches!(child.node_type(), INodeType::Element) {
+				if matches!(child.get_attribute("id"), Some(value) if value.is_str(id)) {
+					return Some(Box::new(Rc::clone(child)));
+				}
+				if let Some(ele) = find_by_id(child, id) {
+					return Some(ele);
+				}
+			}
+		}
+	}
+	None
+}
+
 fn check_if_content_tag(name: &[char]) -> bool {
 	is_content_tag(name, &Some(NameCase::Lower))
 }
@@ -1158,10 +1175,24 @@ impl Document {
 impl IDocumentTrait for Document {
 	// get element by id
 	fn get_element_by_id<'b>(&self, id: &str) -> Option<BoxDynElement<'b>> {
+		let root = Rc::clone(&self.doc.borrow().root);
 		if let Some(node) = self.doc.get_element_by_id(id) {
-			return Some(Box::new(Rc::clone(&node)));
+			// the tree may have been changed since it was parsed
+			if matches!(node.get_attribute("id"), Some(value) if value.is_str(id)) {
+				let mut cur = Rc::clone(&node);
+				loop {
+					if Node::is_same(&cur, &root) {
+						return Some(Box::new(node));
+					}
+					let parent = cur.borrow().parent.as_ref().and_then(|p| p.upgrade());
+					match parent {
+						Some(parent) => cur = parent,
+						None => break,
+					}
+				}
+			}
 		}
-		None
+		find_by_id(&root, id)
 	}
 	// source code
 	fn source_code(&self) -> String {
diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index 13cf2b7..71014ad 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -1,10 +1,25 @@
 use crate::mesdoc::selector::rule::{Matcher, Rule, RuleItem};
-use crate::mesdoc::selector::MatchedQueue;
+use crate::mesdoc::selector::{Combinator, MatchedQueue};
 use crate::mesdoc::{
 	constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR},
-	interface::Elements,
+	interface::{Elements, IElementTrait},
 };
 
+// check the current id of the element
+fn has_id(ele: &dyn IElementTrait, id: &str) -> bool {
+	matches!(ele.get_attribute("id"), Some(value) if value.is_str(id))
+}
+
+// find the descendants by id
+fn find_id(ele: &dyn IElementTrait, id: &str, result: &mut Elements) {
+	ele.children_by(Box::new(|child| {
+		if has_id(child, id) {
+			result.push(child.cloned());
+		}
+		find_id(child, id, result);
+	}));
+}
+
 pub fn init(rules: &mut Vec<RuleItem>) {
 	let rule: RuleItem = RuleItem {
 		name: NAME_SELECTOR_ID,
@@ -16,29 +31,27 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 				let id = data[1].chars.iter().collect::<String>();
 				Matcher {
 					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.is_some();
 						let mut result = Elements::with_capacity(1);
-						if !eles.is_empty() {
-							let first_ele = eles
-								.get_ref()
-								.get(0)
-								.expect("The elements must have at least one element.");
+						if !matches!(use_cache, Some(true)) {
+							// filter methods, just check the elements
+							for ele in eles.get_ref() {
+								if has_id(&**ele, &id) {
+									result.push(ele.cloned());
+								}
+							}
+						} else if let Some(first_ele) = eles.get(0) {
 							if let Some(doc) = &first_ele.owner_document() {
 								if let Some(id_element) = doc.get_element_by_id(&id) {
-									if use_cache {
-										// just add, will checked if the element contains the id element
+									if eles.contains(&id_element, &Combinator::ChildrenAll) {
 										result.push(id_element);
-									} else {
-										// filter methods, will filtered in elements
-										for ele in eles.get_ref() {
-											if ele.is(&id_element) {
-												result.push(id_element);
-												break;
-											}
-										}
+										return result;
 									}
 								}
 							}
+							// not in the document, e.g. the elements are removed or copied
+							for ele in eles.get_ref() {
+								find_id(&**ele, &id, &mut result);
+							}
 						}
 						result
 					})),
-- 
2.43.0


From aaa3b6eb9a2dbf3f8992db64152b0493b2b90b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:11 +0000
Subject: [PATCH 23/36] fix: 'closest', 'siblings' and the 'until' methods
 check the whole selector

---
 src/mesdoc/interface/elements.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 50bfa5e..20823f7 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -516,13 +516,14 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		// filter handles don't use lookup
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, false);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -1521,12 +1522,11 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			let sib_selector = Selector::from_str(selector, false);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, false).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1719,7 +1719,8 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		// filter handles don't use lookup
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
-- 
2.43.0


From 92eccb1ffb3331f4f0bdbda0fa178bc51d4ab2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:32 +0000
Subject: [PATCH 24/36] fix: found elements are in document order, without
 repeats

---
 src/mesdoc/interface/elements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 20823f7..fa1c465 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1805,6 +1805,10 @@ impl<'a> Elements<'a> {
 						}
 					}
 					if need_combine {
+						// keep the document order, without repeats
+						if query.len() > 1 || self.length() > 1 {
+							group.sort_and_unique();
+						}
 						result = result.add(group);
 					}
 				}
-- 
2.43.0


From e1105aad3a886819b34cefbf775ed20315d0a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 25/36] fix: sets with elements of several trees keep all of
 them

---
 src/mesdoc/interface/elements.rs | 89 +++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 24 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index fa1c465..c955f2a 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -37,6 +37,32 @@ fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
 	indexs
 }
 
+// the elements may belong to several trees, e.g. copied or removed ones
+// so keep the roots of the trees, in the order they appear
+#[derive(Default)]
+struct TreeRoots<'a> {
+	roots: Vec<BoxDynElement<'a>>,
+}
+
+impl<'a> TreeRoots<'a> {
+	// get the index of the tree the element is in
+	fn index_of(&mut self, ele: &BoxDynElement) -> usize {
+		let mut root = ele.cloned();
+		while let Some(parent) = root.parent() {
+			root = parent;
+		}
+		let finded = self.roots.iter().position(|cur| cur.is(&root));
+		finded.unwrap_or_else(|| {
+			self.roots.push(root);
+			self.roots.len() - 1
+		})
+	}
+	// get the position, the tree and the indexs in it
+	fn position(&mut self, ele: &BoxDynElement) -> (usize, VecDeque<usize>) {
+		(self.index_of(ele), get_tree_indexs(ele))
+	}
+}
+
 // compare indexs
 fn compare_indexs(a: &VecDeque<usize>, b: &VecDeque<usize>) -> Ordering {
 	let a_total = a.len();
@@ -362,7 +388,8 @@ impl<'a> Elements<'a> {
 	// keep one sibling, first<asc:true> or last<asc:false>
 	fn unique_sibling(&self, asc: bool) -> Elements<'a> {
 		let total = self.length();
-		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
+		let mut trees = TreeRoots::default();
+		let mut parents_indexs: HashSet<(usize, VecDeque<usize>)> = HashSet::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
 		let mut has_root = false;
@@ -374,7 +401,7 @@ impl<'a> Elements<'a> {
 					}
 				}
 				// parents
-				let indexs = get_tree_indexs(&parent);
+				let indexs = trees.position(&parent);
 				// set prev parent
 				prev_parent = Some(parent);
 				// new parent
@@ -414,14 +441,16 @@ impl<'a> Elements<'a> {
 		// should first unique siblings
 		// if have two siblings, then use parent.children
 		let total = self.length();
-		let mut parents_indexs: HashMap<VecDeque<usize>, (usize, bool)> = HashMap::with_capacity(total);
+		let mut trees = TreeRoots::default();
+		let mut parents_indexs: HashMap<(usize, VecDeque<usize>), (usize, bool)> =
+			HashMap::with_capacity(total);
 		let mut uniques: Vec<(BoxDynElement, bool)> = Vec::with_capacity(total);
 		let mut parents: HashMap<usize, BoxDynElement> = HashMap::with_capacity(total);
 		// just keep one sibling node
 		for ele in self.get_ref() {
 			if let Some(parent) = ele.parent() {
 				// parent indexs
-				let indexs = get_tree_indexs(&parent);
+				let indexs = trees.position(&parent);
 				if let Some((index, changed)) = parents_indexs.get_mut(&indexs) {
 					if !*changed {
 						let index = *index;
@@ -446,23 +475,25 @@ impl<'a> Elements<'a> {
 	// unique parent, keep the top parent
 	fn unique_parents(&self) -> Elements<'a> {
 		// keep only top parent
-		let mut ancestors: Vec<(VecDeque<usize>, &BoxDynElement)> = Vec::with_capacity(self.length());
-		for ele in self.get_ref() {
-			let ele_indexs = get_tree_indexs(ele);
-			let cur_len = ancestors.len();
-			if cur_len > 0 {
-				// just check the last ancestor
-				let (top_ele_indexs, _) = &ancestors[cur_len - 1];
-				match relation_of(&ele_indexs, top_ele_indexs) {
-					ElementRelation::Feauture => {
-						ancestors.push((ele_indexs, ele));
-					}
-					ElementRelation::Descendant => {}
-					_ => unreachable!("The elements call `unique_parents` is not ordered"),
+		let mut trees = TreeRoots::default();
+		let mut ancestors: Vec<((usize, VecDeque<usize>), &BoxDynElement)> =
+			Vec::with_capacity(self.length());
+		// an ancestor is always ahead of its descendants in the sorted elements
+		let mut sorted = self.cloned();
+		sorted.sort();
+		for ele in sorted.get_ref() {
+			let ele_position = trees.position(ele);
+			// just check the last ancestor
+			if let Some((top_position, _)) = ancestors.last() {
+				if ele_position.0 == top_position.0
+					&& !matches!(
+						relation_of(&ele_position.1, &top_position.1),
+						ElementRelation::Feauture
+					) {
+					continue;
 				}
-			} else {
-				ancestors.push((ele_indexs, ele));
 			}
+			ancestors.push((ele_position, ele));
 		}
 		let mut result = Elements::with_capacity(ancestors.len());
 		for (_, ele) in ancestors {
@@ -472,11 +503,10 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by(|a, b| {
-			let a_index = get_tree_indexs(a);
-			let b_index = get_tree_indexs(b);
-			compare_indexs(&a_index, &b_index)
-		});
+		let mut trees = TreeRoots::default();
+		self
+			.get_mut_ref()
+			.sort_by_cached_key(|ele| trees.position(ele));
 	}
 	// unique
 	fn unique(&mut self) {
@@ -2643,6 +2673,17 @@ impl<'a> Elements<'a> {
 		if eles.is_empty() {
 			return self.cloned();
 		}
+		// the elements of several trees, can't just compare the indexs
+		let mut trees = TreeRoots::default();
+		for ele in self.get_ref().iter().chain(eles.get_ref()) {
+			trees.index_of(ele);
+		}
+		if trees.roots.len() > 1 {
+			let mut result = self.cloned();
+			result.get_mut_ref().extend(eles);
+			result.sort_and_unique();
+			return result;
+		}
 		let first_eles = self;
 		let second_eles = &eles;
 		// compare first and second
-- 
2.43.0


From 535343e7ed1aa072c0af5c23780061e4880a6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 26/36] fix: 'next_until' and 'prev_until' look from each
 element of the set

---
 src/mesdoc/interface/elements.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index c955f2a..e686ac0 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1392,14 +1392,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
+		// each element has its own until element, even if they are siblings
 		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
-		if result.length() > 1 {
-			result.get_mut_ref().reverse();
-		}
+			self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
+		// the prevs executed from last to first, and may not unique
+		result.sort_and_unique();
 		result
 	}
 
@@ -1504,9 +1501,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		// each element has its own until element, even if they are siblings
+		let mut result =
+			self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next);
+		result.sort_and_unique();
+		result
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
-- 
2.43.0


From 5f5397a7b1b6bd65c67405c5fd61cf7b58a808c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 27/36] fix: set operations do not depend on an order the tree
 no longer has

---
 src/mesdoc/interface/elements.rs | 37 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index e686ac0..dbd7204 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -393,6 +393,9 @@ impl<'a> Elements<'a> {
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
 		let mut has_root = false;
+		// the tree may have changed, use the current order
+		let mut sorted = self.cloned();
+		sorted.sort();
 		let mut handle = |ele: &BoxDynElement| {
 			if let Some(parent) = ele.parent() {
 				if let Some(prev_parent) = &prev_parent {
@@ -416,11 +419,11 @@ impl<'a> Elements<'a> {
 		};
 		// just keep one sibling node
 		if asc {
-			for ele in self.get_ref() {
+			for ele in sorted.get_ref() {
 				handle(ele);
 			}
 		} else {
-			for ele in self.get_ref().iter().rev() {
+			for ele in sorted.get_ref().iter().rev() {
 				handle(ele)
 			}
 			// reverse, keep the order
@@ -1038,22 +1041,18 @@ impl<'a> Elements<'a> {
 		match filter_type {
 			FilterType::Filter => {
 				let mut start_index = 0;
-				let search_total = search.length();
 				for ele in eles {
-					if let Some(index) = search.index_of(ele, start_index) {
+					if let Some(index) = search.index_from(ele, start_index) {
 						// also in search, include
 						start_index = index + 1;
 						result.push(ele.cloned());
-						if start_index >= search_total {
-							break;
-						}
 					}
 				}
 			}
 			FilterType::Not => {
 				let mut start_index = 0;
 				for ele in eles {
-					if let Some(index) = search.index_of(ele, start_index) {
+					if let Some(index) = search.index_from(ele, start_index) {
 						// also in search, exclude
 						start_index = index + 1;
 					} else {
@@ -1074,7 +1073,7 @@ impl<'a> Elements<'a> {
 					let mut is_all_matched = true;
 					let mut start_index = 0;
 					for ele in eles {
-						if let Some(index) = search.index_of(ele, start_index) {
+						if let Some(index) = search.index_from(ele, start_index) {
 							// also in search, exclude
 							start_index = index + 1;
 						} else {
@@ -2672,12 +2671,15 @@ impl<'a> Elements<'a> {
 		if eles.is_empty() {
 			return self.cloned();
 		}
-		// the elements of several trees, can't just compare the indexs
+		// the elements of several trees, or not in order since the tree has changed
+		// can't just merge them by the indexs
 		let mut trees = TreeRoots::default();
-		for ele in self.get_ref().iter().chain(eles.get_ref()) {
-			trees.index_of(ele);
-		}
-		if trees.roots.len() > 1 {
+		let mut is_ordered = |eles: &Elements| {
+			let positions = eles.map(|_, ele| trees.position(ele));
+			positions.windows(2).all(|pair| pair[0] < pair[1])
+		};
+		let is_ordered = is_ordered(self) && is_ordered(&eles);
+		if !is_ordered || trees.roots.len() > 1 {
 			let mut result = self.cloned();
 			result.get_mut_ref().extend(eles);
 			result.sort_and_unique();
@@ -2840,6 +2842,13 @@ impl<'a> Elements<'a> {
 	}
 
 	/// index of
+	// look from the start index first, the sets may be in a different order
+	fn index_from(&self, ele: &BoxDynElement, start_index: usize) -> Option<usize> {
+		self
+			.index_of(ele, start_index)
+			.or_else(|| self.index_of(ele, 0))
+	}
+
 	fn index_of(&self, ele: &BoxDynElement, start_index: usize) -> Option<usize> {
 		let total = self.length();
 		if start_index < total {
-- 
2.43.0


From 5df2c164a8c3a3d48281081a46ef59bcf24b64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:58 +0000
Subject: [PATCH 28/36] fix: selectors with combinators match inside removed or
 copied elements

---
 src/mesdoc/interface/elements.rs | 60 ++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index dbd7204..4a5ab0f 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -956,7 +956,6 @@ impl<'a> Elements<'a> {
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
 		let chain_comb = Combinator::Chain;
-		let mut root: Option<Elements> = None;
 		for process in selector.process.iter() {
 			// filter methods make sure do not use `should_in`
 			let QueryProcess { query, .. } = process;
@@ -976,22 +975,20 @@ impl<'a> Elements<'a> {
 					}
 				}
 				if !filtered.is_empty() && query_num > 1 {
-					// set root first
-					root = root.or_else(|| {
-						let cur_first = filtered.get(0).expect("Filtered length greater than 0");
-						let root_element = cur_first
-							.root_element()
-							.unwrap_or_else(|| cur_first.cloned());
-						Some(Elements::with_node(&root_element))
-					});
-					// get root elements
-					let root_eles = root.as_ref().expect("root element must have");
-					// find elements from root_eles by selector
-					let lookup = Some(&query[..query_num - 1]);
+					let lookup = &query[..query_num - 1];
 					let mut lasts = Elements::with_capacity(filtered.length());
 					let comb = &last_query_first_rule.1;
+					// the first query can be anywhere in the tree, even be the top of removed or copied elements
+					let is_anywhere = matches!(query[0][0].1, Combinator::ChildrenAll);
 					for ele in filtered.get_ref() {
-						if root_eles.has_ele(ele, comb, lookup) {
+						let is_matched = if is_anywhere {
+							Elements::lookup(ele, comb, lookup).is_some()
+						} else {
+							// find elements from the root by selector
+							let root_element = ele.root_element().unwrap_or_else(|| ele.cloned());
+							Elements::with_node(&root_element).has_ele(ele, comb, Some(lookup))
+						};
+						if is_matched {
 							lasts.get_mut_ref().push(ele.cloned());
 						}
 					}
@@ -1901,6 +1898,25 @@ impl<'a> Elements<'a> {
 		self.has_ele(ele, comb, None)
 	}
 
+	// look up from the element by the rules, the result will not be empty
+	fn lookup<'b>(
+		ele: &BoxDynElement,
+		comb: &Combinator,
+		lookup: &[Vec<SelectorSegment>],
+	) -> Option<(Elements<'b>, Combinator)> {
+		let mut elements = Elements::with_node(ele);
+		let mut lookup_comb = comb.reverse();
+		for rules in lookup.iter().rev() {
+			let finded = Elements::select(&elements, rules, Some(&lookup_comb));
+			if finded.is_empty() {
+				return None;
+			}
+			lookup_comb = rules[0].1.reverse();
+			elements = finded;
+		}
+		Some((elements, lookup_comb))
+	}
+
 	// `has_ele`
 	pub(crate) fn has_ele(
 		&self,
@@ -1908,18 +1924,10 @@ impl<'a> Elements<'a> {
 		comb: &Combinator,
 		lookup: Option<&[Vec<SelectorSegment>]>,
 	) -> bool {
-		let mut elements = Elements::with_node(ele);
-		let mut lookup_comb = comb.reverse();
-		if let Some(lookup) = lookup {
-			for rules in lookup.iter().rev() {
-				let finded = Elements::select(&elements, rules, Some(&lookup_comb));
-				if finded.is_empty() {
-					return false;
-				}
-				lookup_comb = rules[0].1.reverse();
-				elements = finded;
-			}
-		}
+		let (elements, lookup_comb) = match Elements::lookup(ele, comb, lookup.unwrap_or(&[])) {
+			Some(finded) => finded,
+			None => return false,
+		};
 		use Combinator::*;
 		match lookup_comb {
 			Parent => {
-- 
2.43.0


From 4f07ad8a57779e528f25bb1cd138469b7d303e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:58 +0000
Subject: [PATCH 29/36] fix: 'add' keeps the elements behind the last common
 one

---
 src/mesdoc/interface/elements.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 4a5ab0f..8ffc6c0 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2814,6 +2814,12 @@ impl<'a> Elements<'a> {
 				}
 			}
 		}
+		// the first is used up by equal elements, the left of second are all after it
+		if fir_left_index > fir_right_index {
+			for index in sec_left_index..=sec_right_index {
+				mids.push((index, first_count));
+			}
+		}
 		let mids_count = mids.len();
 		let mut result = Elements::with_capacity(first_count + mids_count);
 		// add first and mids
-- 
2.43.0


From 038804dcc0112eb3d39a44e8a276722b393d67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:03 +0000
Subject: [PATCH 30/36] fix: a nested selector does not end behind its own
 nested selector

---
 src/mesdoc/selector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index 1fe8970..7327cdd 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -350,6 +350,7 @@ impl Selector {
 							level + 1,
 						)?;
 						index += nest_count;
+						finded = true;
 					}
 					break;
 				}
-- 
2.43.0


From 49595f6babfd9bdcf8ddca38b1e3121103ec5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:45 +0000
Subject: [PATCH 31/36] fix: ':nth-*' and ':only-of-type' check a set that is
 not in the order of the tree

---
 src/mesdoc/rules/pseudo.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index ab0f99f..50205c6 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -115,12 +115,15 @@ where
 		allow_indexs: None,
 		parent: None,
 	};
+	let mut prev_index: usize = 0;
 	for (index, ele) in eles.get_ref().iter().enumerate() {
 		if let Some(parent) = ele.parent() {
 			let mut is_first = false;
 			let mut in_next_group = false;
+			let cur_index = ele.index();
 			if let Some(prev_parent) = &data.parent {
-				if parent.is(prev_parent) {
+				// a group keeps the siblings next to each other in the set and in the order of the tree
+				if data.range.end == index && cur_index > prev_index && parent.is(prev_parent) {
 					// sibling node, just add
 					data.range.end = index + 1;
 				} else {
@@ -130,6 +133,7 @@ where
 			} else {
 				is_first = true;
 			}
+			prev_index = cur_index;
 			// when meet next group siblings
 			if in_next_group {
 				cb(&mut data);
-- 
2.43.0


From 9269cfdd1aab66ce553b14f3b2fc82305ca35615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 32/36] fix: ':checked' ignores a selected option in a group
 before the first option

---
 src/mesdoc/rules/pseudo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 50205c6..3a8381b 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -967,7 +967,10 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 								// check if is the first option, condition 3
 								let mut prev = ele.previous_element_sibling();
 								while let Some(prev_ele) = &prev {
-									if is_equal_chars(&prev_ele.tag_names(), &option_tag) {
+									// an option in a group before may be selected, condition 4
+									if is_equal_chars(&prev_ele.tag_names(), &option_tag)
+										|| check_selected_option(prev_ele, &option_tag)
+									{
 										return false;
 									}
 									prev = prev_ele.previous_element_sibling();
-- 
2.43.0


From 596361afbdf8337487d0514fe3aae73dc75fcba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:53 +0000
Subject: [PATCH 33/36] fix: callbacks of 'children_by' may change the tree

The node stayed borrowed while the caller's matcher ran, so a change made
from inside it panicked.
---
 src/lib.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c3e7d1d..cb11fa5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -618,31 +618,32 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		reverse: bool,
 		mut handle: Box<dyn FnMut(&dyn IElementTrait) -> bool + 'a>,
 	) {
-		if let Some(childs) = &self.borrow().childs {
+		// the handle may change the tree, so don't keep the node borrowed
+		let child_at = |index: usize| {
+			let node = self.borrow();
+			node.childs.as_ref().and_then(|childs| childs.get(index).map(Rc::clone))
+		};
+		let mut index = node_index;
+		while let Some(child) = child_at(index) {
+			// match handle
+			if matches!(child.node_type(), INodeType::Element) && !handle(&child) {
+				break;
+			}
 			if reverse {
-				for child in childs[0..=node_index].iter().rev() {
-					if matches!(child.node_type(), INodeType::Element) {
-						// match handle
-						if !handle(child) {
-							break;
-						}
-					}
+				if index == 0 {
+					break;
 				}
+				index -= 1;
 			} else {
-				for child in childs[node_index..].iter() {
-					if matches!(child.node_type(), INodeType::Element) {
-						// match handle
-						if !handle(child) {
-							break;
-						}
-					}
-				}
+				index += 1;
 			}
 		}
 	}
 
 	fn children_by<'a>(&'a self, mut matcher: Box<dyn FnMut(&dyn IElementTrait) + 'a>) {
-		if let Some(childs) = &self.borrow().childs {
+		// the matcher may change the tree, so don't keep the node borrowed
+		let childs = self.borrow().childs.clone();
+		if let Some(childs) = &childs {
 			for child in childs {
 				if matches!(child.node_type(), INodeType::Element) {
 					matcher(child);
-- 
2.43.0


From 12c744f25e6da52a7b88e1f2a767b358b1f0fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 34/36] fix: a wrong nested selector is reported once, when the
 selector is parsed

':not(a,)' was only refused each time the matcher used it.
---
 src/mesdoc/selector/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index 7327cdd..b0d644e 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -89,6 +89,19 @@ impl Selector {
 		}
 	}
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
+		// the rules must be ready whichever api is called first
+		init();
+		let splitter = SPLITTER.lock().unwrap();
+		let rules = RULES.lock().unwrap();
+		Selector::parse(context, use_lookup, &rules, &splitter)
+	}
+	// parse a selector, the nested selectors too
+	fn parse(
+		context: &str,
+		use_lookup: bool,
+		rules: &[(&str, Arc<Rule>)],
+		splitter: &[BoxDynPattern],
+	) -> Result<Self, Error> {
 		let chars: Vec<char> = context.chars().collect();
 		let total_len = chars.len();
 		let mut selector = Selector::new();
@@ -98,15 +111,11 @@ impl Selector {
 			let mut prev_in = PrevInSelector::Begin;
 			let mut last_in = prev_in;
 			let mut groups: SelectorGroups = Vec::new();
-			// the rules must be ready whichever api is called first
-			init();
-			let splitter = SPLITTER.lock().unwrap();
-			let rules = RULES.lock().unwrap();
 			Selector::add_group(&mut groups);
 			while index < total_len {
 				let next_chars = &chars[index..];
 				// first check if combinator
-				if let Some((matched, len, _)) = Rule::exec_queues(&splitter, next_chars) {
+				if let Some((matched, len, _)) = Rule::exec_queues(splitter, next_chars) {
 					let op = matched[0].chars.iter().collect::<String>();
 					let op = op.trim();
 					if prev_in == PrevInSelector::Splitter {
@@ -169,11 +178,16 @@ impl Selector {
 							let (len, nested_matched) = Selector::parse_until(
 								&chars[index..],
 								&queues[queue_num + 1..],
-								&rules,
-								&splitter,
+								rules,
+								splitter,
 								0,
 							)?;
 							index += len;
+							// the nested selector is used when matching, a wrong one is an error right now
+							for nested in nested_matched.iter().filter(|m| m.name == "selector") {
+								let nested = nested.chars.iter().collect::<String>();
+								Selector::parse(&nested, false, rules, splitter)?;
+							}
 							matched.extend(nested_matched);
 							Selector::add_group_item(&mut groups, (r.make(matched), comb), is_new_item);
 							finded = true;
-- 
2.43.0


From 87628b2a4838b701369be392ee8b0f2618681c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:57 +0000
Subject: [PATCH 35/36] fix: an element with nodes inserted from elsewhere can
 be copied in a debug build

The positions of the copy were subtracted from each other: an inserted node can
begin before its new ancestor, and the subtraction overflowed.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb11fa5..babbe6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -201,7 +201,12 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl standard semantics `clone_node` method
 	fn copy_node<'b>(&self) -> BoxDynNode<'b> {
-		Box::new(self.borrow().clone_node())
+		// the copied positions are relative to the node's own, which only works for an unchanged tree:
+		// the nodes inserted later have positions in another source code, so make them absolute
+		let begin_at = std::mem::take(&mut self.borrow_mut().begin_at);
+		let copy = self.borrow().clone_node();
+		self.borrow_mut().begin_at = begin_at;
+		Box::new(copy)
 	}
 
 	/// impl `typed`
-- 
2.43.0


From d680637a8c0610911e90b5375ebc386648f54e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 36/36] fix: the html of a document with none or several top
 elements can be read

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index babbe6f..352c0c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -802,11 +802,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	/// impl `inner_html`
 	fn inner_html(&self) -> String {
+		// the top of a document may hold any number of elements, only a single one has 'the' inner html
+		let inner_html = !self.is_root_element() || self.children().length() == 1;
 		self
 			.borrow()
 			.build(
 				&RenderOptions {
-					inner_html: true,
+					inner_html,
 					encode_content: true,
 					..Default::default()
 				},
-- 
2.43.0

