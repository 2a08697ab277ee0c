From c0ed19003a93e701154bfb89e69294e2e597049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 01/32] fix: anchored n-grams keep every word within the window
 of an anchor

---
 src/ngrams.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/ngrams.rs b/src/ngrams.rs
index 2f35338..9d5a531 100644
--- a/src/ngrams.rs
+++ b/src/ngrams.rs
@@ -109,29 +109,38 @@ impl Ngrams {
       .split_ascii_whitespace()
       .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
     {
-      // add the current word, potentially erasing the oldest word that falls outside the window
-      context_window.push(w);
       let anchor = self.anchor.as_ref().unwrap();
       if w == anchor {
-        // we've hit an anchor word, the current content of the window should be analyzed
+        // we've hit an anchor word, the current content of the window is justified by it
         words_since_anchor_seen = 0;
         side = AnchorSide::Right;
-        // analyze whatever is in the buffer, and empty it
-        continuous_buffer = context_window.asc_iter().copied().collect();
+        continuous_buffer.extend(context_window.asc_iter().copied());
         context_window.clear();
+        continuous_buffer.push(w);
       } else {
-        words_since_anchor_seen += 1;
-        if words_since_anchor_seen == self.window_size && side == AnchorSide::Right {
-          // it has been too long since we saw an anchor, add to the current buffer, record and
-          // reset
+        if side == AnchorSide::Left && context_window.len() == self.window_size {
+          // the oldest word of the window is too far from any anchor, so the sequence collected
+          // before it ends here
           self.record_words(std::mem::take(&mut continuous_buffer));
-          context_window.clear();
-          side = AnchorSide::Left;
+        }
+        // add the current word, potentially erasing the oldest word that falls outside the window
+        context_window.push(w);
+        if side == AnchorSide::Right {
+          words_since_anchor_seen += 1;
+          if words_since_anchor_seen == self.window_size {
+            // it has been too long since we saw an anchor, add to the current buffer and look for
+            // the left context of the next anchor
+            continuous_buffer.extend(context_window.asc_iter().copied());
+            context_window.clear();
+            side = AnchorSide::Left;
+          }
         }
       }
     }
-    // Any remaining content should be added
-    continuous_buffer.extend(context_window.asc_iter().copied());
+    // Any remaining content to the right of an anchor should be added
+    if side == AnchorSide::Right {
+      continuous_buffer.extend(context_window.asc_iter().copied());
+    }
     self.record_words(std::mem::take(&mut continuous_buffer));
   }
 
-- 
2.43.0


From 18e35c4a53a3205ee0bfc6279ee3d0f8cfe4b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 02/32] fix: apply class rules of a DNM in attribute order, not
 in hash order

---
 src/dnm/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index b21dcdb..cd13590 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -315,9 +315,11 @@ impl DNM {
       // Start scope of self.parameters borrow, to allow mutable self borrow for
       // recurse_node_create
       let mut rules = Vec::new();
-      // First class rules, as more specific
-      for classname in node.get_class_names() {
-        let class_rule = self.parameters.special_tag_class_options.get(&classname);
+      // First class rules, as more specific (in the order of the attribute, so that the outcome is
+      // the same on every run)
+      let classes = node.get_property("class").unwrap_or_default();
+      for classname in classes.split_whitespace() {
+        let class_rule = self.parameters.special_tag_class_options.get(classname);
         rules.push(class_rule);
       }
       // Then element rules as more general
-- 
2.43.0


From 4bc414e36633cc4c4c532478f7c4eda873272ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 03/32] fix: keep back mapping offsets when lowercasing expands
 a character

---
 src/dnm/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index cd13590..f633319 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -223,6 +223,14 @@ impl DNM {
     self.normalize_unicode(&mut string, &mut offsets);
     self.stem_words(&mut string /* , &mut offsets */);
     if self.parameters.convert_to_lowercase {
+      if self.parameters.support_back_mapping {
+        // lowercasing can replace a character by multiple characters
+        offsets = string
+          .chars()
+          .zip(offsets)
+          .flat_map(|(c, offset)| c.to_lowercase().map(move |_| offset))
+          .collect();
+      }
       string = string.to_lowercase();
     }
     self.normalize_whitespace(&mut string, &mut offsets);
-- 
2.43.0


From 0258650eb13b21b0441dee80e25c3b4deb265d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 04/32] fix: DNMRange::trim counts characters, not bytes

---
 src/dnm/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index cbbe6a3..461afc6 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -47,14 +47,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
     for c in range_text.chars() {
       if c.is_whitespace() {
-        trimmed_start += c.len_utf8();
+        trimmed_start += 1;
       } else {
         break;
       }
     }
     for c in range_text.chars().rev() {
       if c.is_whitespace() {
-        trimmed_end -= c.len_utf8();
+        trimmed_end -= 1;
       } else {
         break;
       }
-- 
2.43.0


From ecaadabb95334fb501151c903fca4482268d4234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 05/32] fix: empty byte subrange at the start of a DNMRange

---
 src/dnm/range.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 461afc6..951dc98 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -95,11 +95,15 @@ impl<'dnmrange> DNMRange<'dnmrange> {
         self.start,
         self.end,
       ),
-      end: self.byte_offset_bisection(
-        self.dnm.byte_offsets[self.start] + rel_end - 1,
-        self.start,
-        self.end,
-      ) + 1,
+      end: if rel_end == 0 {
+        self.start
+      } else {
+        self.byte_offset_bisection(
+          self.dnm.byte_offsets[self.start] + rel_end - 1,
+          self.start,
+          self.end,
+        ) + 1
+      },
       dnm: self.dnm,
     }
   }
-- 
2.43.0


From ac7ed7c395bf56a80b49afbcc55997a62ddb6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 06/32] fix: a serialized range ending in front of a token does
 not include the token

---
 src/dnm/range.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 951dc98..d5715b9 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -146,9 +146,15 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     }
     let (node1, offset1) = self.dnm.back_map[self.start];
     let (node2, offset2) = self.dnm.back_map[self.end];
+    // an end inside of a token stands for the end of the token, an end in front of it does not
+    let inside_token = offset2 < 0
+      && self
+        .dnm
+        .get_range_of_node(node2)
+        .map_or(true, |token| token.start < self.end);
     DNMRange::create_arange(
       &DNMRange::serialize_offset(self.dnm.root_node, node1, offset1, false),
-      &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, true),
+      &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, inside_token),
     )
   }
 
-- 
2.43.0


From 8afb3ec98311c96104806cce51f918d1c312e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 07/32] fix: serialize ranges that extend to the end of the
 text

---
 src/dnm/range.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index d5715b9..6160340 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -144,8 +144,8 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     if !self.dnm.parameters.support_back_mapping {
       panic!("DNMRange::serialize: DNM did not generate the back_map");
     }
-    let (node1, offset1) = self.dnm.back_map[self.start];
-    let (node2, offset2) = self.dnm.back_map[self.end];
+    let (node1, offset1) = self.back_map_entry(self.start);
+    let (node2, offset2) = self.back_map_entry(self.end);
     // an end inside of a token stands for the end of the token, an end in front of it does not
     let inside_token = offset2 < 0
       && self
@@ -158,6 +158,18 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     )
   }
 
+  /// the back mapping of a plaintext offset, where the end of the text is taken as the position
+  /// following its last character
+  fn back_map_entry(&self, pos: usize) -> (RoNode, i32) {
+    let back_map = &self.dnm.back_map;
+    match (back_map.get(pos), back_map.last()) {
+      (Some(&entry), _) => entry,
+      (None, Some(&(node, offset))) if offset >= 0 => (node, offset + 1),
+      (None, Some(&entry)) => entry,
+      (None, None) => (self.dnm.root_node, -1),
+    }
+  }
+
   /// creates an arange from to xpointers
   pub fn create_arange(from: &str, to: &str) -> String { format!("arange({from},{to})") }
 
-- 
2.43.0


From 2cc33ae62bec2b1e42544f8f1b21d6fa01435228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 08/32] fix: serialize the end of a range inside of a token
 whose element has an id

---
 src/dnm/range.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 6160340..947f15b 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -189,6 +189,12 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
   /// serializes a node into an xpath expression
   pub fn serialize_node(root_node: RoNode, node: RoNode, is_end: bool) -> String {
+    if is_end && !node.is_text_node() {
+      // the end of an element is the beginning of what follows it, also if the element has an id
+      if let Some(next) = get_next_sibling(root_node, node) {
+        return DNMRange::serialize_node(root_node, next, false);
+      }
+    }
     match node.get_property("id") {
       None => {
         if node == root_node {
@@ -203,30 +209,23 @@ impl<'dnmrange> DNMRange<'dnmrange> {
             get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
           )
         } else {
-          let act = if is_end {
-            get_next_sibling(root_node, node).unwrap_or(node)
-          } else {
-            node
-          };
-          let parent = act.get_parent().unwrap();
+          let parent = node.get_parent().unwrap();
           let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
           format!(
             "{}/{}[{}]",
             base,
-            if act.is_text_node() {
-              "text()".to_string()
-            } else if let Some(ns) = act.get_namespace() {
+            if let Some(ns) = node.get_namespace() {
               let prefix = ns.get_prefix();
               if prefix.is_empty() {
                 // default namespace without prefix
-                format!("*[local-name() = '{}']", act.get_name())
+                format!("*[local-name() = '{}']", node.get_name())
               } else {
-                format!("{}:{}", prefix, act.get_name())
+                format!("{}:{}", prefix, node.get_name())
               }
             } else {
-              act.get_name()
+              node.get_name()
             },
-            get_node_number(parent, act, &|n: RoNode| n.get_name() == act.get_name()).unwrap()
+            get_node_number(parent, node, &|n: RoNode| n.get_name() == node.get_name()).unwrap()
           )
         }
       },
-- 
2.43.0


From 2c22de477f127d9489e8bab0ad42cff577c51a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 09/32] fix: the end of a serialized range is never a comment
 or outside of the DNM

---
 src/dnm/range.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 947f15b..c7a4185 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -314,15 +314,14 @@ fn get_position_of_lowest_parent(node: RoNode, dnm: &DNM) -> usize {
 /// Helper function: Returns the next sibling of a node if it exists
 /// (goes up in the tree if required)
 fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
+  if node == root_node {
+    dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
+    return None;
+  }
   match node.get_next_sibling() {
-    None => {
-      if node == root_node {
-        dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
-        None
-      } else {
-        get_next_sibling(root_node, node.get_parent().unwrap())
-      }
-    },
+    None => get_next_sibling(root_node, node.get_parent().unwrap()),
+    // comments and the like have no name to be addressed by
+    Some(n) if !n.is_element_node() && !n.is_text_node() => get_next_sibling(root_node, n),
     Some(n) => Some(n),
   }
 }
-- 
2.43.0


From 361c6c605bdd67ce0b016db03e3c4293c5223bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 10/32] fix: the tokenizer counts characters, as its ranges do,
 not bytes

---
 src/tokenizer.rs | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3ab0010..2521f0e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -79,8 +79,8 @@ impl Tokenizer {
     let mut left_window: VecDeque<char> = VecDeque::with_capacity(window_size);
 
     while let Some(sentence_char) = text_iterator.next() {
-      // Bookkeep the end position
-      end += sentence_char.len_utf8();
+      // Bookkeep the end position (ranges are in characters, not bytes)
+      end += 1;
 
       match sentence_char {
         '.' | ':' => {
@@ -89,8 +89,8 @@ impl Tokenizer {
           while text_iterator.peek().unwrap_or(&'.').is_whitespace()
             || text_iterator.peek() == Some(&'\'')
           {
-            let space_char = text_iterator.next().unwrap();
-            end += space_char.len_utf8();
+            text_iterator.next();
+            end += 1;
           }
           if text_iterator.peek().is_none() {
             break;
@@ -205,8 +205,8 @@ impl Tokenizer {
             // second newline
             // Get next non-space character
             while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
-              let space_char = text_iterator.next().unwrap();
-              end += space_char.len_utf8();
+              text_iterator.next();
+              end += 1;
             }
             if text_iterator.peek().is_none() {
               break;
@@ -248,12 +248,12 @@ impl Tokenizer {
               sentences.push(
                 DNMRange {
                   start,
-                  end: end - other_char.len_utf8(),
+                  end: end - 1,
                   dnm,
                 }
                 .trim(),
               );
-              start = end - other_char.len_utf8();
+              start = end - 1;
             }
           }
           // Increment the left window
@@ -285,7 +285,7 @@ impl Tokenizer {
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
     while let Some(c) = text_iterator.next() {
-      end += c.len_utf8();
+      end += 1;
       if !c.is_alphanumeric() {
         if c == '\'' || c == '’' {
           if let Some(peeked) = text_iterator.peek() {
@@ -294,8 +294,8 @@ impl Tokenizer {
             }
           }
         }
-        if start < end - c.len_utf8() {
-          result.push(sentence_range.get_subrange(start, end - c.len_utf8()));
+        if start < end - 1 {
+          result.push(sentence_range.get_subrange(start, end - 1));
         }
         start = end;
       }
@@ -309,8 +309,7 @@ impl Tokenizer {
   /// returns the words and punctuation of a sentence, using simple heuristics
   #[allow(unused_assignments)]
   pub fn words_and_punct<'b>(&'b self, range: &DNMRange<'b>) -> Vec<DNMRange> {
-    let range_text = range.get_plaintext();
-    let text_iterator = range_text.chars();
+    let range_chars: Vec<char> = range.get_plaintext().chars().collect();
     let mut start = 0usize;
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
@@ -319,7 +318,8 @@ impl Tokenizer {
       () => {
         if start < end {
           if apostrophe_flag {
-            match &range_text[start + 1..end] {
+            let suffix: String = range_chars[start + 1..end].iter().collect();
+            match suffix.as_str() {
               // Handle closed set of apostrophe cases, detach from all other cases
               "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
               _ => {
@@ -335,21 +335,21 @@ impl Tokenizer {
       };
     }
 
-    for c in text_iterator {
+    for &c in &range_chars {
       // letters, numbers can accumulate
       if c.is_alphanumeric() {
-        end += c.len_utf8();
+        end += 1;
       } else {
         // everything else completes a word and starts a new one
         complete_word!();
         // except that whitepace can be skipped over
         if c.is_whitespace() {
-          end += c.len_utf8();
+          end += 1;
           start = end;
         }
         // non-alphanum chars are standalone words EXCEPT when connectors such as apostrophes
         else {
-          end += c.len_utf8();
+          end += 1;
           if c == '\'' || c == '’' {
             apostrophe_flag = true;
           } else {
@@ -384,7 +384,7 @@ fn next_word_with_length(text_iterator: &mut Peekable<Chars>) -> (String, usize)
   while next_word_length < 20 && text_iterator.peek().unwrap_or(&'.').is_alphabetic() {
     let word_char = text_iterator.next().unwrap();
     next_word.push(word_char);
-    next_word_length += word_char.len_utf8();
+    next_word_length += 1;
   }
 
   let next_word: String = next_word.into_iter().collect();
-- 
2.43.0


From 1f450953a57388d17549a26fe0e936ac088d3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 11/32] fix: keep the last sentence when its final characters
 or its only word are not in the window

---
 src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 2521f0e..8a2a0c3 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -266,9 +266,9 @@ impl Tokenizer {
     }
 
     end = cmp::min(end, text.chars().count());
-    let last_left_window: String = left_window.into_iter().collect();
-    if last_left_window.find(char::is_alphabetic).is_some() {
-      sentences.push(DNMRange { start, end, dnm }.trim());
+    let last_range = DNMRange { start, end, dnm };
+    if last_range.get_plaintext().contains(char::is_alphabetic) {
+      sentences.push(last_range.trim());
     }
 
     // Filter out edge cases that return empty ranges
-- 
2.43.0


From 4466bbfa131a3cde6d0a6dd153c2cc8d2ab71956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 12/32] fix: no empty token after a lone apostrophe

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 8a2a0c3..5a7295a 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -328,7 +328,9 @@ impl Tokenizer {
               },
             }
           }
-          result.push(range.get_subrange(start, end));
+          if start < end {
+            result.push(range.get_subrange(start, end));
+          }
           apostrophe_flag = false;
           start = end;
         }
-- 
2.43.0


From c5c2f057bff11ca0354784dafd59b50ecf37f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 13/32] fix: a single non-ASCII letter before a punctuation
 sign does not end a sentence, either

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5a7295a..9b91c5e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -63,7 +63,7 @@ impl Tokenizer {
     };
     // Don't consider single letters followed by a punctuation sign an end of a
     // sentence, Also "a.m." and "p.m." shouldn't get split
-    ((lw_word.len() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
+    ((lw_word.chars().count() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
   }
 
   // TODO: Reduce complexity, this tokenization pass is terribly overengineered
-- 
2.43.0


From 2db5556d64bd97902dab004ad539b40bf34b4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 14/32] fix: the first word after a sentence break counts as
 left context of the next mark

---
 src/tokenizer.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 9b91c5e..bdfd5a0 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -125,12 +125,12 @@ impl Tokenizer {
                 sentences.push(DNMRange { start, end, dnm }.trim());
                 start = end;
               }
-              // We consumed the next word, so make sure we reflect that in either case:
-              for next_word_char in next_word_string.chars() {
-                left_window.push_back(next_word_char);
-                if left_window.len() >= window_size {
-                  left_window.pop_front();
-                }
+            }
+            // We consumed the next word, so make sure we reflect that in either case:
+            for next_word_char in next_word_string.chars() {
+              left_window.push_back(next_word_char);
+              if left_window.len() >= window_size {
+                left_window.pop_front();
               }
             }
             end += next_word_length;
@@ -215,18 +215,10 @@ impl Tokenizer {
             let (next_word_string, next_word_length) = next_word_with_length(&mut text_iterator);
             // Sentence-break, UNLESS a "mathformula" or a "lowercase word" follows, or a
             // non-alpha char
-            if next_word_string.is_empty()
+            if !(next_word_string.is_empty()
               || next_word_string.starts_with("mathformula")
-              || next_word_string.chars().next().unwrap().is_lowercase()
+              || next_word_string.chars().next().unwrap().is_lowercase())
             {
-              // We consumed the next word, add it to the left window
-              for next_word_char in next_word_string.chars() {
-                left_window.push_back(next_word_char);
-                if left_window.len() >= window_size {
-                  left_window.pop_front();
-                }
-              }
-            } else {
               // Sentence-break found:
               left_window = VecDeque::with_capacity(window_size);
               sentences.push(DNMRange { start, end, dnm }.trim());
@@ -234,6 +226,12 @@ impl Tokenizer {
             }
 
             // We consumed the next word, so make sure we reflect that in either case:
+            for next_word_char in next_word_string.chars() {
+              left_window.push_back(next_word_char);
+              if left_window.len() >= window_size {
+                left_window.pop_front();
+              }
+            }
             end += next_word_length;
           }
         },
-- 
2.43.0


From 9f5443c8fc3b4e1b182b91728618caaca68bf417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 15/32] fix: the dots of e.g. and i.e. do not make
 abbreviations of egg and ice

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index bdfd5a0..47be9ab 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -21,7 +21,7 @@ impl Default for Tokenizer {
   fn default() -> Tokenizer {
     Tokenizer {
       stopwords : stopwords::load(),
-      abbreviations : Regex::new(r"^(?:C(?:[ft]|o(?:n[jn]|lo?|rp)?|a(?:l(?:if)?|pt)|mdr|p?l|res)|M(?:[dst]|a(?:[jnry]|ss)|i(?:ch|nn|ss)|o(?:nt)?|ex?|rs?)|A(?:r(?:[ck]|iz)|l(?:t?a)?|ttys?|ssn|dm|pr|ug|ve)|c(?:o(?:rp|l)?|(?:ap)?t|mdr|p?l|res|f)|S(?:e(?:ns?|pt?|c)|(?:up|g)?t|ask|r)|s(?:e(?:ns?|pt?|c)|(?:up|g)?t|r)|a(?:ttys?|ssn|dm|pr|rc|ug|ve|l)|P(?:enna?|-a.s|de?|lz?|rof|a)|D(?:e(?:[cfl]|p?t)|ist|ak|r)|I(?:[as]|n[cd]|da?|.e|ll)|F(?:e[bd]|w?y|ig|la|t)|O(?:k(?:la)?|[cn]t|re)|d(?:e(?:p?t|c)|ist|r)|E(?:xpy?|.g|sp|tc|qs?)|R(?:e(?:ps?|sp|v)|d)|T(?:e(?:nn|x)|ce|hm)|e(?:xpy?|.g|sp|tc|qs?)|m(?:[st]|a[jry]|rs?)|r(?:e(?:ps?|sp|v)|d)|N(?:e(?:br?|v)|ov?)|W(?:isc?|ash|yo?)|f(?:w?y|eb|ig|t)|p(?:de?|lz?|rof)|J(?:u[ln]|an|r)|U(?:SAFA|niv|t)|j(?:u[ln]|an|r)|K(?:ans?|en|y)|B(?:lv?d|ros)|b(?:lv?d|ros)|G(?:en|ov|a)|L(?:td?|a)|g(?:en|ov)|i(?:.e|nc)|l(?:td?|a)|[Hh]wa?y|V[ast]|Que|nov?|univ|Yuk|oct|tce|vs)\s?$").unwrap(),
+      abbreviations : Regex::new(r"^(?:C(?:[ft]|o(?:n[jn]|lo?|rp)?|a(?:l(?:if)?|pt)|mdr|p?l|res)|M(?:[dst]|a(?:[jnry]|ss)|i(?:ch|nn|ss)|o(?:nt)?|ex?|rs?)|A(?:r(?:[ck]|iz)|l(?:t?a)?|ttys?|ssn|dm|pr|ug|ve)|c(?:o(?:rp|l)?|(?:ap)?t|mdr|p?l|res|f)|S(?:e(?:ns?|pt?|c)|(?:up|g)?t|ask|r)|s(?:e(?:ns?|pt?|c)|(?:up|g)?t|r)|a(?:ttys?|ssn|dm|pr|rc|ug|ve|l)|P(?:enna?|-a\.s|de?|lz?|rof|a)|D(?:e(?:[cfl]|p?t)|ist|ak|r)|I(?:[as]|n[cd]|da?|\.e|ll)|F(?:e[bd]|w?y|ig|la|t)|O(?:k(?:la)?|[cn]t|re)|d(?:e(?:p?t|c)|ist|r)|E(?:xpy?|\.g|sp|tc|qs?)|R(?:e(?:ps?|sp|v)|d)|T(?:e(?:nn|x)|ce|hm)|e(?:xpy?|\.g|sp|tc|qs?)|m(?:[st]|a[jry]|rs?)|r(?:e(?:ps?|sp|v)|d)|N(?:e(?:br?|v)|ov?)|W(?:isc?|ash|yo?)|f(?:w?y|eb|ig|t)|p(?:de?|lz?|rof)|J(?:u[ln]|an|r)|U(?:SAFA|niv|t)|j(?:u[ln]|an|r)|K(?:ans?|en|y)|B(?:lv?d|ros)|b(?:lv?d|ros)|G(?:en|ov|a)|L(?:td?|a)|g(?:en|ov)|i(?:\.e|nc)|l(?:td?|a)|[Hh]wa?y|V[ast]|Que|nov?|univ|Yuk|oct|tce|vs)\s?$").unwrap(),
     }
   }
 }
-- 
2.43.0


From 987ebc5aeda06accc9ec4a73797feaf0e12602dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 16/32] fix: word_not matches the words that its pattern does
 not match

---
 src/patterns/matching.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 22e9535..5f2cede 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -444,10 +444,9 @@ fn match_word<'t>(
     },
     WordPattern::WordNot(ref p) => {
       let m = match_word(pf, p, word, range);
-      if m.matched {
-        m
-      } else {
-        InternalWordMatch::no_match()
+      InternalWordMatch {
+        _matches: Vec::new(),
+        matched: !m.matched,
       }
     },
     WordPattern::Marked(ref p, ref marker) => {
-- 
2.43.0


From e4f2e7177b715a11311bc192e41bdd4c3e34d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 17/32] fix: math_descendant descends below the children of a
 node

---
 src/patterns/matching.rs | 44 +++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 5f2cede..c3e0222 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -579,25 +579,8 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
     },
     MathPattern::MathDescendant(ref pattern, ref match_type) => {
       let mut matches: Vec<Match> = Vec::new();
-      let mut matched = false;
-      let m = match_math(pf, pattern, node);
-      if m.matched {
-        matched = true;
-        matches.extend_from_slice(&m._matches[..]);
-      }
-      for child in fast_get_non_text_children(node).into_iter() {
-        if matched && match_type == &MathDescendantMatchType::First {
-          return InternalMathMatch {
-            _matches: matches,
-            matched: true,
-          };
-        }
-        let m = match_math(pf, pattern, child);
-        if m.matched {
-          matched = true;
-          matches.extend_from_slice(&m._matches[..]);
-        }
-      }
+      let first_only = match_type == &MathDescendantMatchType::First;
+      let matched = match_math_descendants(pf, pattern, node, first_only, &mut matches);
 
       if matched || match_type == &MathDescendantMatchType::Arbitrary {
         InternalMathMatch {
@@ -611,6 +594,29 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
   }
 }
 
+/// matches a node and its descendants (DFS), collecting the markers of all matching nodes,
+/// or of the first one only. Returns whether any node matched
+fn match_math_descendants<'t>(
+  pf: &PatternFile,
+  pattern: &MathPattern,
+  node: RoNode,
+  first_only: bool,
+  matches: &mut Vec<Match<'t>>,
+) -> bool {
+  let m = match_math(pf, pattern, node);
+  let mut matched = m.matched;
+  matches.extend(m._matches);
+  for child in fast_get_non_text_children(node).into_iter() {
+    if matched && first_only {
+      break;
+    }
+    if match_math_descendants(pf, pattern, child, first_only, matches) {
+      matched = true;
+    }
+  }
+  matched
+}
+
 fn match_mtext(pf: &PatternFile, rule: &MTextPattern, string: &str) -> bool {
   match *rule {
     MTextPattern::AnyMText => true,
-- 
2.43.0


From 3a9316b8c24f01b5c4cf69efccb51439c17be514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 18/32] fix: a marker around an empty sequence match does not
 panic

---
 src/patterns/matching.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index c3e0222..3fdd3e1 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -310,7 +310,9 @@ fn match_seq<'t>(
     },
     SequencePattern::Marked(ref pattern, ref marker) => {
       let m = match_seq(pf, pattern, sentence, phrase_tree, range, pos);
-      if m.matched {
+      if m.matched && m.end == pos {
+        m // an empty sequence (e.g. from `SequenceMatchType::Any`) has no range to mark
+      } else if m.matched {
         InternalSeqMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-- 
2.43.0


From 6807c41bf1a530a3ebf5f0b6bb3e9cc6e1e7b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 19/32] fix: offsets of senna words are byte offsets in pattern
 matching, too

---
 src/patterns/matching.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 3fdd3e1..f7625e4 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -317,7 +317,7 @@ fn match_seq<'t>(
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange(
+              range: range.get_subrange_from_byte_offsets(
                 sentence.get_words()[pos].get_offset_start(),
                 sentence.get_words()[m.end - 1].get_offset_end(),
               ),
@@ -412,7 +412,9 @@ fn match_word<'t>(
       }
     },
     WordPattern::MathWord(ref math_pattern) => {
-      let node = range.dnm.back_map[range.start + word.get_offset_start()].0;
+      let node = range
+        .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end())
+        .get_node();
       if node.get_name() != "math" {
         return InternalWordMatch::no_match();
       }
@@ -457,7 +459,8 @@ fn match_word<'t>(
         InternalWordMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-              range: range.get_subrange(word.get_offset_start(), word.get_offset_end()),
+              range: range
+                .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end()),
               marker: marker.clone(),
             }),
             sub_matches: m._matches,
-- 
2.43.0


From 8fc3b5283c5d5781e482cbcece88663975e3be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 20/32] fix: a word_any element has no content

---
 src/patterns/rules.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patterns/rules.rs b/src/patterns/rules.rs
index 78c3875..3fc5cd1 100644
--- a/src/patterns/rules.rs
+++ b/src/patterns/rules.rs
@@ -607,7 +607,10 @@ impl WordPattern {
         get_only_child(node)?,
         pctx,
       )?)),
-      "word_any" => Ok(WordPattern::AnyWord),
+      "word_any" => {
+        assert_no_child(node)?;
+        Ok(WordPattern::AnyWord)
+      },
       "word_not" => Ok(WordPattern::WordNot(Box::new(WordPattern::load_from_node(
         get_only_child(node)?,
         pctx,
-- 
2.43.0


From 5f3a93b06170bbf0b63e8e580fb3deb4ce847979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:35 +0000
Subject: [PATCH 21/32] fix: an unreadable document ended the serial corpus
 walk

---
 src/data.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 36df7a2..c6b2ebb 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -142,15 +142,11 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         };
         if selected {
           let path = entry.path().to_str().unwrap_or("").to_owned();
-          let doc_result = Document::new(path, self.corpus);
-          return match doc_result {
-            Ok(doc) => Some(doc),
-            // TODO: Currently encountering an unparseable file will terminate the entire corpus
-            // walk, which is too severe.
-            // A more viable strategy would be to 1) retry creating the document once and 2)
-            // print an error message and continue the walk
-            _ => None,
-          };
+          match Document::new(path, self.corpus) {
+            Ok(doc) => return Some(doc),
+            // an unparseable file should not terminate the entire corpus walk
+            _ => println!("-- Error while loading document: {entry:?}"),
+          }
         }
       } else {
         println!("-- Error while walking for entry: {next_entry:?}")
-- 
2.43.0


From 41eacd3f07a9f68a6d5d80fb3a5d112c5f829075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:35 +0000
Subject: [PATCH 22/32] fix: an unreadable document made the parallel corpus
 walk panic

---
 src/parallel_data/corpus.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index 17559af..7902063 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -76,16 +76,23 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          // an unparseable file should not terminate the entire corpus walk
+          _ => {
+            println!("-- Error while loading document: {path:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(HashMap::new, |mut map1, map2| {
         for (k, v) in map2 {
@@ -124,16 +131,23 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          // an unparseable file should not terminate the entire corpus walk
+          _ => {
+            println!("-- Error while loading document: {path:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
         for (k, v) in map21 {
-- 
2.43.0


From 2370b69e35e696d961bcd166823e92ebca0766f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 23/32] fix: blank lexeme annotations hid the mathformula
 fallback and left stray blanks

---
 src/dnm/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 32c0714..0ff6fd7 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -59,6 +59,7 @@ pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
         .collect::<Vec<String>>()
         .join(" ")
     })
+    .filter(|anno_lexemes| !anno_lexemes.is_empty())
     .collect::<Vec<String>>()
     .join(" ");
   if !lexemes.is_empty() {
-- 
2.43.0


From d665eb770c1bccb95589ef496923fa6a527b92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 24/32] fix: words were lowercased even without discard_case

---
 src/util/data_helpers.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 854ffda..0755195 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -59,16 +59,14 @@ pub fn ams_normalize_word_range(
   context: &mut Context,
   options: LexicalOptions,
 ) -> Result<String, Box<dyn Error>> {
-  let mut word_string = if options.discard_punct {
-    range
-      .get_plaintext()
-      .to_lowercase()
-      .chars()
-      .filter(|c| c.is_alphanumeric()) // drop apostrophes, other noise?
-      .collect::<String>()
-  } else {
+  let mut word_string = if options.discard_case {
     range.get_plaintext().to_lowercase()
+  } else {
+    range.get_plaintext().to_string()
   };
+  if options.discard_punct {
+    word_string.retain(|c| c.is_alphanumeric()); // drop apostrophes, other noise?
+  }
   if word_string.len() > MAX_WORD_LENGTH {
     // Using a more aggressive normalization, large words tend to be conversion
     // errors with lost whitespace - drop the entire paragraph when this occurs.
@@ -84,7 +82,7 @@ pub fn ams_normalize_word_range(
     } else {
       word_string = dnm::node::lexematize_math(range.get_node(), context);
     }
-  } else if word_string.contains("citationelement") {
+  } else if word_string.to_lowercase().contains("citationelement") {
     word_string = String::from("citationelement");
   } else if IS_NUMERIC.is_match(&word_string) {
     word_string = String::from("NUM");
-- 
2.43.0


From 979a25113cf64eb0495a3560a460153f1868c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:03 +0000
Subject: [PATCH 25/32] fix: heading normalization joined the words around a
 number, letter or plural

---
 src/util/data_helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 0755195..998c98d 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -24,7 +24,7 @@ lazy_static! {
   static ref LEAD_FIXED_PHRASE: Regex = Regex::new(r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s").unwrap();
   static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();
   static ref COMMON_PLURALS : Regex = Regex::new(
-    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\s|$)"
+    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(\s|$)"
   ).unwrap();
 }
 
@@ -126,13 +126,13 @@ pub fn heading_from_node_aux(
 /// e.g. "definition xiii a"->"definition"
 #[allow(clippy::cognitive_complexity)]
 pub fn normalize_heading_title(heading: &str) -> String {
-  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), "");
+  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), " ");
   let simple_heading = IS_NUM.replace_all(simple_heading.trim(), " ");
-  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), "");
+  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), " ");
   let simple_heading = SINGLE_TRAIL_LETTER.replace_all(simple_heading.trim(), "");
   let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");
   let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");
-  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1");
+  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
   if simple_heading.is_empty() {
     // quick exit if empty
     String::new()
-- 
2.43.0


From c0fbf0fcf0eb828df057a8cd29c29cf47ff2fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 26/32] fix: an empty file or a directory named like a document
 was walked as a document without root

---
 src/data.rs                   | 4 ++++
 src/parallel_data/document.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index c6b2ebb..b015281 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -202,6 +202,10 @@ impl<'d> Document<'d> {
     } else {
       corpus.html_parser.parse_file(&filepath)?
     };
+    // the HTML parser also accepts an empty file, or a directory, but there is no document in it
+    if dom.get_root_readonly().is_none() {
+      return Err(XmlParseError::GotNullPointer);
+    }
 
     Ok(Document {
       path: filepath,
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index c742623..c38ff48 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -27,6 +27,10 @@ impl<'d> Document<'d> {
     } else {
       corpus.html_parser.parse_file(&filepath)?
     };
+    // the HTML parser also accepts an empty file, or a directory, but there is no document in it
+    if dom.get_root_readonly().is_none() {
+      return Err(XmlParseError::GotNullPointer);
+    }
 
     Ok(Document {
       path: filepath,
-- 
2.43.0


From b4908e65ca17e7bbe7a7404e80e8565361146bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 27/32] fix: references with ltx_ref as the last of several
 classes were not found

---
 src/data.rs                   | 2 +-
 src/parallel_data/document.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b015281..f5d0dd7 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -251,7 +251,7 @@ impl<'d> Document<'d> {
   /// Associated function for `get_ref_nodes`
   fn ref_nodes(doc: &XmlDoc) -> Vec<RoNode> {
     let xpath_context = Context::new(doc).unwrap();
-    match xpath_context.evaluate("//*[(local-name()='span' or local-name()='a') and (contains(@class,'ltx_ref ') or @class='ltx_ref')]") {
+    match xpath_context.evaluate("//*[(local-name()='span' or local-name()='a') and contains(concat(' ',normalize-space(@class),' '),' ltx_ref ')]") {
       Ok(found_payload) => found_payload.get_readonly_nodes_as_vec(),
       _ => Vec::new(),
     }
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index c38ff48..8148c92 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -137,7 +137,7 @@ impl<'d> Document<'d> {
   /// Associated function for `get_ref_nodes`
   pub(crate) fn ref_nodes(doc: &XmlDoc) -> Vec<RoNode> {
     Document::xpath_nodes(doc,
-    "//*[(local-name()='span' or local-name()='a') and (contains(@class,'ltx_ref ') or @class='ltx_ref')]")
+    "//*[(local-name()='span' or local-name()='a') and contains(concat(' ',normalize-space(@class),' '),' ltx_ref ')]")
   }
 
   /// Get an iterator over the sentences of the document
-- 
2.43.0


From 4a5727b9c28f825f6efdf9c83c4bff9fb7ac6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 28/32] fix: concluding remarks are a conclusion, also once the
 plural is reduced

---
 src/util/data_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 998c98d..e74b52d 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -183,7 +183,7 @@ pub fn normalize_heading_title(heading: &str) -> String {
       h if h.starts_with("question ") => "question",
       h if h.starts_with("result") => "result",
       h if h.starts_with("msc") => "subject",
-      h if h.starts_with("conclusion") || h.starts_with("concluding remarks") => "conclusion",
+      h if h.starts_with("conclusion") || h.starts_with("concluding remark") => "conclusion",
       h if h.starts_with("summary ") => "summary",
       h if h.starts_with("observation") => "observation",
       h if h.starts_with("model") => "model",
-- 
2.43.0


From d07ef3bddbdaa19b439be342b67c756f51deeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 29/32] fix: a line break separates the words to its left and
 right for the abbreviation check

---
 src/tokenizer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 47be9ab..e7824d3 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -75,7 +75,7 @@ impl Tokenizer {
     let mut text_iterator = text.chars().peekable();
     let mut start = 0;
     let mut end = 0;
-    let window_size = 12; // size of max string + 1
+    let window_size = 13; // size of max string and a line break + 1
     let mut left_window: VecDeque<char> = VecDeque::with_capacity(window_size);
 
     while let Some(sentence_char) = text_iterator.next() {
@@ -225,6 +225,11 @@ impl Tokenizer {
               start = end;
             }
 
+            // The line break separates the words around it
+            left_window.push_back('\n');
+            if left_window.len() >= window_size {
+              left_window.pop_front();
+            }
             // We consumed the next word, so make sure we reflect that in either case:
             for next_word_char in next_word_string.chars() {
               left_window.push_back(next_word_char);
@@ -233,6 +238,12 @@ impl Tokenizer {
               }
             }
             end += next_word_length;
+          } else {
+            // The line break separates the words around it
+            left_window.push_back('\n');
+            if left_window.len() >= window_size {
+              left_window.pop_front();
+            }
           }
         },
         other_char => {
@@ -240,7 +251,7 @@ impl Tokenizer {
           // "mathformula\nmathformula")
           if other_char.is_uppercase() {
             let lw_string: String = left_window.iter().collect();
-            if lw_string.starts_with("mathformula") {
+            if lw_string.trim_end_matches('\n').ends_with("mathformula") {
               // Sentence-break found, but exclude the current letter from the end:
               left_window = VecDeque::with_capacity(window_size);
               sentences.push(
-- 
2.43.0


From efedccc44169746681d75958deb7cc1ea34c5a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 30/32] fix: pointers to nodes whose id contains a quote or a
 comma could not be read back

---
 src/dnm/range.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index c7a4185..4cdc7fb 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -195,7 +195,12 @@ impl<'dnmrange> DNMRange<'dnmrange> {
         return DNMRange::serialize_node(root_node, next, false);
       }
     }
-    match node.get_property("id") {
+    // an id with a quote or a comma cannot be written in a pointer, such a node is addressed by its
+    // position
+    match node
+      .get_property("id")
+      .filter(|id| !id.contains(['"', ',']))
+    {
       None => {
         if node == root_node {
           return "/".to_string();
-- 
2.43.0


From bf560397b29e0f692000a59aa4880874a87af091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 31/32] fix: read CDATA sections as the text they are

The text of a CDATA section was missing from the plaintext and the canonical form, pointers to
texts next to one counted differently from XPath, and a pattern file with one was refused.
---
 src/dnm/c14n.rs       | 4 ++--
 src/dnm/mod.rs        | 2 +-
 src/dnm/node.rs       | 6 ++++++
 src/dnm/range.rs      | 9 +++++----
 src/patterns/utils.rs | 7 ++++---
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/dnm/c14n.rs b/src/dnm/c14n.rs
index 067ec43..819f11d 100644
--- a/src/dnm/c14n.rs
+++ b/src/dnm/c14n.rs
@@ -6,7 +6,7 @@ use crate::dnm::DNM;
 use crypto::digest::Digest;
 use crypto::md5::Md5;
 use libxml::readonly::RoNode;
-use libxml::tree::NodeType::{ElementNode, TextNode};
+use libxml::tree::NodeType::{CDataSectionNode, ElementNode, TextNode};
 use regex::Regex;
 use std::sync::Mutex;
 
@@ -49,7 +49,7 @@ impl DNM {
     let next_indent_level = indent.map(|level| level + 2);
 
     match node.get_type() {
-      Some(TextNode) => {
+      Some(TextNode) | Some(CDataSectionNode) => {
         if let Ok(range) = self.get_range_of_node(node) {
           let text = range.get_plaintext();
           if !text.trim().is_empty() {
diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index f633319..2c2c7c7 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -203,7 +203,7 @@ impl DNM {
 
   /// The heart of the dnm generation...
   fn recurse_node_create(&mut self, node: RoNode) {
-    if node.is_text_node() {
+    if node::is_text(node) {
       self.text_node_create(node)
     } else {
       self.intermediate_node_create(node)
diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 0ff6fd7..898d6c0 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -1,11 +1,17 @@
 use lazy_static::lazy_static;
 use libxml::readonly::RoNode;
+use libxml::tree::NodeType;
 use libxml::xpath::Context;
 use regex::Regex;
 lazy_static! {
   static ref LEXEME_END_MARKER : Regex = Regex::new(r"((?:OPFUNCTION|OPERATOR|OPEN|CLOSE|UNKNOWN|RELOP|ADDOP|MULOP|ARROW|BIGOP|BINOP|ID|OVERACCENT|UNDERACCENT):end)").unwrap();
 }
 
+/// Checks whether a node is text of the document, which may also be written as a CDATA section
+pub fn is_text(node: RoNode) -> bool {
+  node.is_text_node() || node.get_type() == Some(NodeType::CDataSectionNode)
+}
+
 /// Map math nodes to their lexemes
 pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
   // We are going to descend down an assumed equation/formula/eqnarray, grabbing any x-llamapun
diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 4cdc7fb..c5c7b3f 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -1,6 +1,7 @@
 //! The `dnm::range` submodule provides data structures for indexing into a DNM
 //! object's plaintext
 
+use crate::dnm::node::is_text;
 use crate::dnm::DNM;
 use libxml::readonly::RoNode;
 use libxml::xpath::Context;
@@ -189,7 +190,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
   /// serializes a node into an xpath expression
   pub fn serialize_node(root_node: RoNode, node: RoNode, is_end: bool) -> String {
-    if is_end && !node.is_text_node() {
+    if is_end && !is_text(node) {
       // the end of an element is the beginning of what follows it, also if the element has an id
       if let Some(next) = get_next_sibling(root_node, node) {
         return DNMRange::serialize_node(root_node, next, false);
@@ -205,13 +206,13 @@ impl<'dnmrange> DNMRange<'dnmrange> {
         if node == root_node {
           return "/".to_string();
         }
-        if node.is_text_node() {
+        if is_text(node) {
           let parent = node.get_parent().unwrap();
           let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
           format!(
             "{}/text()[{}]",
             base,
-            get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
+            get_node_number(parent, node, &is_text).unwrap()
           )
         } else {
           let parent = node.get_parent().unwrap();
@@ -326,7 +327,7 @@ fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
   match node.get_next_sibling() {
     None => get_next_sibling(root_node, node.get_parent().unwrap()),
     // comments and the like have no name to be addressed by
-    Some(n) if !n.is_element_node() && !n.is_text_node() => get_next_sibling(root_node, n),
+    Some(n) if !n.is_element_node() && !is_text(n) => get_next_sibling(root_node, n),
     Some(n) => Some(n),
   }
 }
diff --git a/src/patterns/utils.rs b/src/patterns/utils.rs
index c57a1e4..9287761 100644
--- a/src/patterns/utils.rs
+++ b/src/patterns/utils.rs
@@ -1,5 +1,6 @@
 //! Some utility functions. Mostly helper functions for dealing with the XML
 
+use crate::dnm::node::is_text;
 use libxml::readonly::RoNode;
 use libxml::tree::*;
 
@@ -16,7 +17,7 @@ pub fn get_simple_node_content(node: RoNode, trim: bool) -> Result<String, Strin
   let child = node.get_first_child();
   if child.is_none() {
     Ok(String::new())
-  } else if !child.as_ref().unwrap().is_text_node()
+  } else if !is_text(child.unwrap())
     || child.as_ref().unwrap().get_next_sibling().is_some()
   {
     Err(format!(
@@ -45,7 +46,7 @@ pub fn get_non_text_children(node: RoNode) -> Result<Vec<RoNode>, String> {
 
     let cur_ = cur.unwrap();
 
-    if cur_.is_text_node() {
+    if is_text(cur_) {
       if !cur_.get_content().trim().is_empty() {
         return Err(format!(
           "found unexpected text in \"{}\" node: \"{}\"",
@@ -69,7 +70,7 @@ pub fn fast_get_non_text_children(node: RoNode) -> Vec<RoNode> {
       return children;
     }
     let cur_ = cur.unwrap();
-    if !cur_.is_text_node() && !is_comment_node(cur_) {
+    if !is_text(cur_) && !is_comment_node(cur_) {
       children.push(cur_);
     }
     cur = cur_.get_next_sibling();
-- 
2.43.0


From a21f17a375fbb1a3f79fb8c9566b4129411e0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 32/32] fix: CDATA sections of scripts and styles are no text

The HTML parser makes them, and they stay out of the plaintext as before.
---
 src/dnm/c14n.rs |  3 ++-
 src/dnm/node.rs | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dnm/c14n.rs b/src/dnm/c14n.rs
index 819f11d..1384f91 100644
--- a/src/dnm/c14n.rs
+++ b/src/dnm/c14n.rs
@@ -2,6 +2,7 @@
 //!      The core purpose for canonicalization is linguistic comparison,
 //! so the c14n module tries to strip away markup artefacts unrelated to the underlying
 //! content, such as xml:ids.
+use crate::dnm::node::is_text;
 use crate::dnm::DNM;
 use crypto::digest::Digest;
 use crypto::md5::Md5;
@@ -49,7 +50,7 @@ impl DNM {
     let next_indent_level = indent.map(|level| level + 2);
 
     match node.get_type() {
-      Some(TextNode) | Some(CDataSectionNode) => {
+      Some(TextNode) | Some(CDataSectionNode) if is_text(node) => {
         if let Ok(range) = self.get_range_of_node(node) {
           let text = range.get_plaintext();
           if !text.trim().is_empty() {
diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 898d6c0..44664fc 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -7,9 +7,16 @@ lazy_static! {
   static ref LEXEME_END_MARKER : Regex = Regex::new(r"((?:OPFUNCTION|OPERATOR|OPEN|CLOSE|UNKNOWN|RELOP|ADDOP|MULOP|ARROW|BIGOP|BINOP|ID|OVERACCENT|UNDERACCENT):end)").unwrap();
 }
 
-/// Checks whether a node is text of the document, which may also be written as a CDATA section
+/// Checks whether a node is text of the document, which may also be written as a CDATA section.
+/// (The HTML parser reads scripts and styles as CDATA sections, too, these are not text.)
 pub fn is_text(node: RoNode) -> bool {
-  node.is_text_node() || node.get_type() == Some(NodeType::CDataSectionNode)
+  match node.get_type() {
+    Some(NodeType::TextNode) => true,
+    Some(NodeType::CDataSectionNode) => node
+      .get_parent()
+      .map_or(true, |p| !matches!(p.get_name().as_str(), "script" | "style")),
+    _ => false,
+  }
 }
 
 /// Map math nodes to their lexemes
-- 
2.43.0

