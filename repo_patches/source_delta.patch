From 706bde474260878322c77eebc09918d2ffed158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 01/16] fix: report the marks of text nodes, so mark steps keep
 the other marks

MarkdownNode::marks always returned None: adding a mark to a text dropped
every mark it already had, removing one dropped all of them, and marks were
never checked against the parent (allow_marks also ignored the given set).
---
 src/markdown/mod.rs    | 2 +-
 src/markdown/schema.rs | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..684ef91 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,7 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        self.text_node().map(|node| &node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..9ceb61a 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -1,6 +1,6 @@
 use super::MarkdownMarkType;
 use crate::markdown::{MarkdownContentMatch, MarkdownMark, MarkdownNode};
-use crate::model::{ContentMatch, Fragment, MarkSet, Node, NodeType, Schema};
+use crate::model::{ContentMatch, Fragment, Mark, MarkSet, Node, NodeType, Schema};
 
 /// The markdown schema type
 pub struct MD;
@@ -61,8 +61,10 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        marks
+            .into_iter()
+            .all(|mark| self.allows_mark_type(mark.r#type()))
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
-- 
2.43.0


From 06b6592b3e9f2244a0ffe094abc7a658fa830fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 02/16] fix: remove only the given mark from a set, not another
 one of its type

Removing a link to one target also removed a link to a different target,
although a set without the mark is documented to be left alone.
---
 src/model/marks.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..a207488 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -48,7 +48,9 @@ impl<S: Schema> MarkSet<S> {
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
             Ok(index) => {
-                self.content.remove(index);
+                if &self.content[index] == mark {
+                    self.content.remove(index);
+                }
             }
             Err(_index) => {}
         }
@@ -138,9 +140,13 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
             Ok(index) => {
-                let mut owned_set = set.into_owned();
-                owned_set.content.remove(index);
-                Cow::Owned(owned_set)
+                if &set.content[index] == self {
+                    let mut owned_set = set.into_owned();
+                    owned_set.content.remove(index);
+                    Cow::Owned(owned_set)
+                } else {
+                    set
+                }
             }
             Err(_index) => set,
         }
-- 
2.43.0


From a36cd517fea7c6efb3696208c4dbbd40e0c2405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 03/16] fix: visit exactly the nodes between the given
 positions

nodes_between subtracted past zero for every nested node and for every child
after the end of the range, so text_content panicked on (or, in release
builds, returned no text for) any document with nested content.
---
 src/model/fragment.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..c273f83 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -145,12 +145,15 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
+                        from.saturating_sub(start),
                         usize::min(content.size(), to - start),
                         f,
                         node_start + start,
-- 
2.43.0


From 2ff83b76cf649e212da00a28f960f5ee758d28c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 04/16] fix: let an open-ended range reach to the end of the
 node's content

slice and replace used the node size, two positions past the end of the
content, so every range without an upper bound failed to resolve.
---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..a11a51e 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -160,8 +160,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         assert!(to >= from, "replace: {} >= {}", to, from);
 
-- 
2.43.0


From ff6d1685e9cb0fbc455cfd7183e3eaa5a0a938f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 05/16] fix: return an error for a span that ends before it
 starts

Applying such a step (any client can send one) panicked instead of failing.
---
 src/model/node.rs             | 7 ++++++-
 src/transform/replace_step.rs | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index a11a51e..fa7493b 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -126,6 +126,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         if from == to {
             return Ok(Slice::default());
         }
+        if to < from {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
@@ -162,7 +165,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let from = util::from(&range);
         let to = util::to(&range, self.content_size());
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if to < from {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..aba6eb6 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,6 +78,9 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
+    if to < from {
+        return Err(ResolveErr::RangeError { pos: to });
+    }
     let mut dist = to - from;
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
-- 
2.43.0


From 74929396a8409a01a57ffb31098792406d496ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 06/16] fix: resolve positions in a node without content

Resolving any position in a leaf panicked; now only 0 is in range.
---
 src/model/resolved_pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..68b76f7 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -200,7 +200,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
-- 
2.43.0


From 1bca9ce308120d2bf3185a6da03fe752064e31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 07/16] fix: return an error for a position inside of a
 character

A position between the two UTF-16 units of one character resolved fine, and
the step applied there panicked when it came to split the text.
---
 src/model/replace.rs      |  7 ++++++-
 src/model/resolved_pos.rs |  7 +++++--
 src/model/util.rs         | 12 ++++++++++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..0b46662 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Index};
+use super::{fragment::IndexError, util, Index};
 use crate::model::{ContentMatchError, Fragment, Node, NodeType, ResolveErr, ResolvedPos, Schema};
 use crate::util::EitherOrBoth;
 use derivative::Derivative;
@@ -72,6 +72,11 @@ fn insert_into<S: Schema>(
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
+    if let Some(text_node) = child.and_then(|c| c.text_node()) {
+        if !util::is_boundary_utf16(text_node.text.as_str(), dist - offset) {
+            return Err(IndexError::OutOfBounds(dist).into());
+        }
+    }
     if offset == dist || matches!(child, Some(c) if c.is_text()) {
         if let Some(p) = parent {
             if !p.can_replace(index, index, Some(&insert), ..)? {
diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 68b76f7..79d6ef0 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Fragment, Node, Schema};
+use super::{fragment::IndexError, util, Fragment, Node, Schema};
 use derivative::Derivative;
 use displaydoc::Display;
 use std::borrow::Cow;
@@ -223,7 +223,10 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
                 break;
             }
             node = node.child(index).unwrap();
-            if node.is_text() {
+            if let Some(text_node) = node.text_node() {
+                if !util::is_boundary_utf16(text_node.text.as_str(), rem) {
+                    return Err(ResolveErr::RangeError { pos });
+                }
                 break;
             }
             parent_offset = rem - 1;
diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..6b81221 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -16,6 +16,18 @@ pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     }
 }
 
+/// Whether the UTF-16 offset `index` lies between two characters of the text, not inside of one.
+pub fn is_boundary_utf16(text: &str, index: usize) -> bool {
+    let mut pos = 0;
+    for c in text.chars() {
+        if pos >= index {
+            break;
+        }
+        pos += c.len_utf16();
+    }
+    pos == index
+}
+
 pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
     let mut iter = text.chars();
     while index > 0 {
-- 
2.43.0


From eb6f43e569841fb38d330a41edd4121c7ca47bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 08/16] fix: reject a slice whose open depth its content or
 position does not have

Replacing with such a slice (any client can send one) panicked, and so did
inserting into one with an open depth near the maximum.
---
 src/model/replace.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 0b46662..1c534c9 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -50,9 +50,29 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let dist = pos.saturating_add(self.open_start);
+        let content = insert_into(&self.content, dist, fragment, None)?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
+
+    /// Whether there are nodes of at least the open depth on both sides of the content.
+    fn has_open_nodes(&self) -> bool {
+        let mut start = &self.content;
+        for _ in 0..self.open_start {
+            match start.first_child().and_then(|c| c.content()) {
+                Some(content) => start = content,
+                None => return false,
+            }
+        }
+        let mut end = &self.content;
+        for _ in 0..self.open_end {
+            match end.last_child().and_then(|c| c.content()) {
+                Some(content) => end = content,
+                None => return false,
+            }
+        }
+        true
+    }
 }
 
 /// Error on insertion
@@ -145,7 +165,10 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if slice.open_end > rp_to.depth
+        || rp_from.depth - slice.open_start != rp_to.depth - slice.open_end
+        || !slice.has_open_nodes()
+    {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From 457853e4030bef096ae07103e58183a683550ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 09/16] fix: a structure step overwrites no rest of a text

---
 src/transform/replace_step.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index aba6eb6..1a8a7c6 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -82,6 +82,10 @@ fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<b
         return Err(ResolveErr::RangeError { pos: to });
     }
     let mut dist = to - from;
+    if dist > 0 && rp_from.text_offset() > 0 {
+        // the rest of the text is content
+        return Ok(true);
+    }
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 7abe42a1c6a13093895fd898959be8e34a559047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:40 +0000
Subject: [PATCH 10/16] fix: let no range bound overflow

---
 src/model/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/util.rs b/src/model/util.rs
index 6b81221..58c8728 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -4,14 +4,14 @@ pub fn from<R: RangeBounds<usize>>(range: &R) -> usize {
     match range.start_bound() {
         Bound::Unbounded => 0,
         Bound::Included(x) => *x,
-        Bound::Excluded(x) => x + 1,
+        Bound::Excluded(x) => x.saturating_add(1),
     }
 }
 
 pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     match range.end_bound() {
         Bound::Unbounded => max,
-        Bound::Included(x) => x + 1,
+        Bound::Included(x) => x.saturating_add(1),
         Bound::Excluded(x) => *x,
     }
 }
-- 
2.43.0


From 15fdf471cf5cd2e29839e3236cf4a7df1c554570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 11/16] fix: join texts that have the same marks after a mark
 step

---
 src/model/mod.rs           | 2 +-
 src/model/replace.rs       | 2 +-
 src/transform/mark_step.rs | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/model/mod.rs b/src/model/mod.rs
index 32f8140..381d3a4 100644
--- a/src/model/mod.rs
+++ b/src/model/mod.rs
@@ -19,7 +19,7 @@ pub use replace::{InsertError, ReplaceError, Slice};
 pub use resolved_pos::{ResolveErr, ResolvedNode, ResolvedPos};
 pub use schema::{AttrNode, Block, Leaf, MarkType, Schema, TextNode};
 
-pub(crate) use replace::replace;
+pub(crate) use replace::{add_node, replace};
 pub(crate) use resolved_pos::Index;
 
 #[cfg(test)]
diff --git a/src/model/replace.rs b/src/model/replace.rs
index 1c534c9..b56f4a4 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -242,7 +242,7 @@ fn joinable<'a, S: Schema>(
     Ok(node)
 }
 
-fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
+pub(crate) fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
     if let Some(last) = target.last_mut() {
         if let Some(c_text) = child.text_node() {
             if let Some(l_text) = c_text.same_markup(last) {
diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..86de118 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -1,5 +1,5 @@
 use super::{util::Span, StepKind};
-use crate::model::{Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
+use crate::model::{add_node, Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
 use derivative::Derivative;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
@@ -15,7 +15,7 @@ where
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped)
     }
     Fragment::from(mapped)
 }
@@ -31,7 +31,7 @@ where
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped)
     }
     Fragment::from(mapped)
 }
-- 
2.43.0


From 37120a15bc9b17f978bbd78f04d4f487a6971e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 12/16] fix: close an inner mark before the outer one on export

---
 src/markdown/to_markdown.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..2f3d6e6 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -137,10 +137,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::Text(text_node) => {
-                    if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
+                    // a mark is only closed after all that were opened inside of it
+                    if self.marks.iter().any(|m| !text_node.marks.contains(m)) {
+                        if let Some(last) = self.marks.pop() {
                             self.inner.push((node, index));
-                            self.marks.pop();
                             return Some(Event::End(mark_tag(last)));
                         }
                     }
-- 
2.43.0


From a684b9b889384005e2ca03b83e8430120c565ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 13/16] fix: keep the alternative text and the title of an
 image in Markdown

---
 src/markdown/from_markdown.rs | 12 ++++++++----
 src/markdown/to_markdown.rs   |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..d3a9918 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -159,7 +159,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -277,9 +277,13 @@ impl MarkdownDeserializer {
                     }),
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
-                        if let Attrs::Image(attrs) = attrs {
-                            if content.len() > 0 {
-                                return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                        if let Attrs::Image(mut attrs) = attrs {
+                            for node in &content {
+                                if let MarkdownNode::Text(t) = node {
+                                    attrs.alt.push_str(t.text.as_str());
+                                } else {
+                                    return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                                }
                             }
                             let cb = MarkdownNode::Image(Leaf { attrs });
                             self.add_content(cb)?;
diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 2f3d6e6..c640413 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -183,11 +183,15 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
+                    if index == 1 && !attrs.alt.is_empty() {
+                        self.inner.push((node, index + 1));
+                        return Some(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    }
                     self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
                         Tag::Image(
                             LinkType::Inline,
                             CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
+                            CowStr::Borrowed(attrs.title.as_str()),
                         )
                     })
                 }
-- 
2.43.0


From e1f4028046a3e380cf30b651867c324c73261eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 14/16] fix: leave no empty text in an imported code block

---
 src/markdown/from_markdown.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index d3a9918..5facdbe 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -204,6 +204,9 @@ impl MarkdownDeserializer {
                         if let Attrs::CodeBlock(attrs) = attrs {
                             if let Some(MarkdownNode::Text(t)) = content.last_mut() {
                                 t.text.remove_last_newline();
+                                if t.text.len_utf16() == 0 {
+                                    content.pop();
+                                }
                             }
                             let cb = MarkdownNode::CodeBlock(AttrNode {
                                 attrs,
-- 
2.43.0


From 72007f25c0b4644decd60e0e78798f7fc6d712e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 15/16] fix: join imported texts with the same marks

---
 src/markdown/from_markdown.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 5facdbe..318bfaf 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -2,10 +2,11 @@ use super::{
     BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
     MarkdownNode, OrderedListAttrs, MD,
 };
-use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
+use crate::model::{add_node, AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
 use std::{
+    borrow::Cow,
     convert::{TryFrom, TryInto},
     num::TryFromIntError,
 };
@@ -80,6 +81,16 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    fn add_text(&mut self, text: String, marks: MarkSet<MD>) -> Result<(), FromMarkdownError> {
+        let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        if !text.is_empty() {
+            let text = Text::from(text);
+            let node = MarkdownNode::Text(TextNode { text, marks });
+            add_node::<MD>(Cow::Owned(node), &mut last.0);
+        }
+        Ok(())
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -296,18 +307,12 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks: self.mark_set.clone(),
-                    }))?;
+                    self.add_text(text.to_string(), self.mark_set.clone())?;
                 }
                 Event::Code(text) => {
                     let mut marks = self.mark_set.clone();
                     marks.add(&MarkdownMark::Code);
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks,
-                    }))?;
+                    self.add_text(text.to_string(), marks)?;
                 }
                 Event::Html(_) => {
                     return Err(FromMarkdownError::NotSupported("Html"));
-- 
2.43.0


From 7b73f45fc7e5bdb3e00b5e114cc269af9242fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 16/16] fix: import valid content only

---
 src/markdown/from_markdown.rs | 69 +++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 318bfaf..9b4763e 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -1,8 +1,10 @@
 use super::{
     BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
-    MarkdownNode, OrderedListAttrs, MD,
+    MarkdownNode, MarkdownNodeType, OrderedListAttrs, MD,
+};
+use crate::model::{
+    add_node, AttrNode, Block, Fragment, Leaf, MarkSet, Node, NodeType, Text, TextNode,
 };
-use crate::model::{add_node, AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
 use std::{
@@ -25,6 +27,8 @@ pub enum FromMarkdownError {
     MisplacedEndTag(&'static str, Attrs),
     /// No children allowed in {0:?}
     NoChildrenAllowed(&'static str),
+    /// Invalid content for {0:?}
+    InvalidContent(MarkdownNodeType),
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -47,6 +51,52 @@ pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
     d.deserialize(parser)
 }
 
+fn check_content(node: &MarkdownNode) -> Result<(), FromMarkdownError> {
+    if let Some(content) = node.content() {
+        if !node.r#type().valid_content(content) {
+            return Err(FromMarkdownError::InvalidContent(node.r#type()));
+        }
+    }
+    Ok(())
+}
+
+fn paragraph(content: Vec<MarkdownNode>) -> MarkdownNode {
+    MarkdownNode::Paragraph(Block {
+        content: Fragment::from(content),
+    })
+}
+
+/// The content of a list item: the parser leaves out the paragraphs in tight lists
+fn item_content(content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
+    let mut blocks = Vec::new();
+    let mut inline = Vec::new();
+    for node in content {
+        if node.is_inline() {
+            inline.push(node);
+        } else {
+            if !inline.is_empty() {
+                blocks.push(paragraph(std::mem::take(&mut inline)));
+            }
+            blocks.push(node);
+        }
+    }
+    if !inline.is_empty() {
+        blocks.push(paragraph(inline));
+    }
+    if !matches!(blocks.first(), Some(MarkdownNode::Paragraph(_))) {
+        blocks.insert(0, paragraph(Vec::new()));
+    }
+    blocks
+}
+
+/// The content of a document or blockquote, which is never empty
+fn block_content(mut content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
+    if content.is_empty() {
+        content.push(paragraph(Vec::new()));
+    }
+    content
+}
+
 #[derive(Default)]
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
@@ -76,6 +126,7 @@ impl MarkdownDeserializer {
     }
 
     fn add_content(&mut self, node: MarkdownNode) -> Result<(), FromMarkdownError> {
+        check_content(&node)?;
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
         last.0.push(node);
         Ok(())
@@ -203,7 +254,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Blockquote = attrs {
                             let b = MarkdownNode::Blockquote(Block {
-                                content: Fragment::from(content),
+                                content: Fragment::from(block_content(content)),
                             });
                             self.add_content(b)?;
                         } else {
@@ -254,9 +305,11 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
                             let cb = MarkdownNode::ListItem(Block {
-                                content: Fragment::from(content),
+                                content: Fragment::from(item_content(content)),
                             });
                             self.add_content(cb)?;
+                        } else {
+                            return Err(FromMarkdownError::MisplacedEndTag("Item", attrs));
                         }
                     }
                     Tag::FootnoteDefinition(_) => {
@@ -336,9 +389,11 @@ impl MarkdownDeserializer {
         }
         let (content, attrs) = self.pop_stack()?;
         if let Attrs::Doc = attrs {
-            Ok(MarkdownNode::Doc(Block {
-                content: Fragment::from(content),
-            }))
+            let doc = MarkdownNode::Doc(Block {
+                content: Fragment::from(block_content(content)),
+            });
+            check_content(&doc)?;
+            Ok(doc)
         } else {
             Err(FromMarkdownError::MisplacedEndTag("Doc", attrs))
         }
-- 
2.43.0

