From 5abc50ef35d9143cd3fb5e777e51b2bec82fd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/39] fix: parse begindatetime/enddatetime of processors
 (format string typo)

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..2c57d92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,13 +487,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From 6c5ce1a365ddd8dd6af2ad48fd4b3c315c14e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/39] fix: infinite recursion in Display for AttribType

---
 src/attrib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..78fe893 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,8 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        let s: &str = (*self).into();
+        write!(f, "{}", s)
     }
 }
 
-- 
2.43.0


From 63f8d274fed9910ba1a69834c04910fb5147c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 03/39] fix: completing the set of a layer no longer discards
 its other attributes

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..e6efe0e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -366,7 +366,9 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                for attrib in add_attributes {
+                    element.set_attrib(attrib);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 4cde27e5430f65e2d8c2b3ec39910b8f7296598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 04/39] fix: do not escape the content of comments on
 serialisation

---
 src/serialiser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..10516d9 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -289,7 +289,8 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    //entities are not interpreted in comments, so nothing may be escaped
+                    let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 9ce5796820d19fa640a63bdd1cac2fdffd5ac04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 05/39] fix: unions of selectors keep all members and survive
 unmatchable ones

---
 src/select.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..a3fc20b 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -192,7 +192,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = match self.next {
+            Some(next) => Some(Box::new(next.and(selector))),
+            None => Some(Box::new(selector)),
+        };
         self
     }
 
@@ -201,9 +204,11 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
-        self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        let matchable = self.set != Cmp::Unmatchable &&
+                        self.class != Cmp::Unmatchable &&
+                        self.processor != Cmp::Unmatchable;
+        //in a union it suffices if any of the selectors is matchable
+        matchable || self.next.as_ref().map(|next| next.matchable()).unwrap_or(false)
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
-- 
2.43.0


From 88beb2ef322b14b47cd747ba4cb89af39c3c1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 06/39] fix: queries on annotator, annotator type and
 confidence are no longer ignored

---
 src/select.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index a3fc20b..e8abd25 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -45,6 +45,9 @@ impl Selector {
         selector.elementtype = query.elementtype.clone();
         selector.elementgroup = query.elementgroup.clone();
         selector.contexttype = query.contexttype.clone();
+        selector.confidence = query.confidence.clone();
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
         selector.datatypes = vec![DataTypeSelector::Elements];
         //if we have subsets, we use contexttype instead of elementtype (because elementtype will
         //always be ElementType::feature)
@@ -232,6 +235,7 @@ impl Selector {
                     (self.subset == Cmp::Any || self.subset.matches(element.subset_key().as_ref())) &&
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
                     (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
                 } else {
-- 
2.43.0


From 263c8866e7b4c24698d165699e25ae3ffa5e05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 07/39] fix: common_ancestors started over once the
 intersection was empty

---
 src/select.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index e8abd25..597ea8e 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -716,17 +716,16 @@ impl Document {
     }
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
-        let mut result: Vec<ElementKey> = Vec::new();
+        let mut result: Option<Vec<ElementKey>> = None;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
-                    result = ancestors.into_iter().collect();
-                } else {
-                    result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-                }
+                result = match result {
+                    None => Some(ancestors),
+                    Some(result) => Some(result.into_iter().filter(|a| ancestors.contains(a)).collect()),
+                };
             }
         }
-        result
+        result.unwrap_or_default()
     }
 }
-- 
2.43.0


From 02e70ee355cfd2b5e99ce29ce04a41ec41042697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 08/39] fix: reuse the existing layer when adding span
 annotation from a spanned element

---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index e6efe0e..f66a178 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -549,7 +549,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
-- 
2.43.0


From 7d24659095ab3fd64cdce89809c936059783d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 09/39] fix: adding a processor that is already present does
 not duplicate it in the provenance chain

---
 src/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index f66a178..9e40d6c 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -403,7 +403,9 @@ impl Document {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
+            if !self.provenancestore.chain.contains(&child_key) {
+                self.provenancestore.chain.push(child_key);
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -442,7 +444,9 @@ impl Document {
         };
 
         if let Some(parent) = self.get_mut_processor(parent_key) {
-            parent.processors.push(child_key);
+            if !parent.processors.contains(&child_key) {
+                parent.processors.push(child_key);
+            }
         }
 
         Ok(())
-- 
2.43.0


From 0ed602cf9946d4267492aaf80dd2d0d3f53cc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 10/39] fix: stack overflow when selecting over many items that
 do not match

---
 src/select.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 597ea8e..268241c 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -417,7 +417,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -454,14 +454,13 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
+                //nothing to return, continue with whatever is on the stack now
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -590,21 +589,18 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
+        while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
+                    return Some(Self::Item { element: element });
                 },
                 _ => {
-                    //recurse
-                    self.next()
+                    //not an element, continue with the next item
                 }
             }
-        } else {
-            None
         }
+        None
     }
 
 }
-- 
2.43.0


From eaa08616611457b46bd45ef26f174c256430cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 11/39] fix: text() no longer returns text content of another
 text class than requested

---
 src/common.rs | 1 +
 src/text.rs   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index d004873..4a3d920 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -4,6 +4,7 @@ pub const NSXLINK: &[u8] = b"http://www.w3.org/1999/xlink";
 pub const FOLIAVERSION: &str = "2.1.0";
 pub const GENERATOR: &str = "folia-rust";
 
+pub const DEFAULT_TEXT_CLASS: &str = "current";
 pub const DEFAULT_TEXT_SET: &str = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl";
 pub const DEFAULT_PHON_SET: &str = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/phon.foliaset.ttl";
 
diff --git a/src/text.rs b/src/text.rs
index 150e25d..72ff872 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -93,6 +93,8 @@ impl<'a> Element<'a> {
         } else if !properties.printable || properties.hidden {
             Err(FoliaError::NoTextError("No such text".to_string()))
         } else {
+            let textclass_name = doc.get_declaration(set).and_then(|declaration| declaration.get_class(textclass)).unwrap_or(DEFAULT_TEXT_CLASS);
+
             //Get text from children first
             let mut delimiter: String = String::new();
             let mut text: String = String::new();
@@ -122,7 +124,7 @@ impl<'a> Element<'a> {
                                    }
                                }
                             }
-                        } else if element.elementtype() == ElementType::TextContent {
+                        } else if element.elementtype() == ElementType::TextContent && element.class().unwrap_or(DEFAULT_TEXT_CLASS) == textclass_name {
                             textcontent_element = Some(element);
                         }
                     }
-- 
2.43.0


From a102cd5591f85179d278b15ff5089cf03cbe127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 12/39] fix: text() panicked when set or textclass was left to
 the default (None)

---
 src/text.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 72ff872..62f7bcb 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -197,11 +197,13 @@ impl<'a> Element<'a> {
     ///fallback to the default text set and "current class".
     pub fn text(&self, textparameters: &TextParameters) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &textparameters.set.as_ref().map(|s| s.as_str())).as_str()) {
-            let class_key = doc.class_key(dec_key, &textparameters.textclass.as_ref().map(|s| s.as_str()).expect("unwrapping textclass")  )?;
+        let set: &str = textparameters.set.as_ref().map(|s| s.as_str()).unwrap_or(DEFAULT_TEXT_SET);
+        let textclass: &str = textparameters.textclass.as_ref().map(|s| s.as_str()).unwrap_or(DEFAULT_TEXT_CLASS);
+        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &Some(set)).as_str()) {
+            let class_key = doc.class_key(dec_key, textclass)?;
             self.text_by_key(dec_key, class_key,textparameters.strict,textparameters.retaintokenisation, None)
         } else {
-            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", textparameters.set.as_ref().map(|s| s.as_str()).expect("unwrapping set"))))
+            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set)))
         }
     }
 }
-- 
2.43.0


From 290472553cba10caab5354339f23184755213bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 13/39] fix: features are in the set of their parent
 annotation, and no panic if there is none

---
 src/document.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 9e40d6c..f53a829 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -830,8 +830,17 @@ impl Store<ElementData,ElementKey> for Document {
                         //get the declaration key from the parent context:
                         let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
 
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
+                        let set = element.set()?.map(|s| s.to_string());
+                        let deckey = match (parent.declaration_key()?, &set) {
+                            //no explicit set: the feature is in the same set as its parent
+                            (Some(parent_deckey), None) => parent_deckey,
+                            _ => {
+                                let annotationtype = parent.elementtype.annotationtype().ok_or(
+                                    FoliaError::EncodeError(format!("Features can not be used on {}, it has no annotation type", parent.elementtype))
+                                )?;
+                                self.declare(annotationtype, &set,  &None, &None)?
+                            }
+                        };
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-- 
2.43.0


From 2e075c93b5762c06d771df180c32f313b15459ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 14/39] fix: adding elements with nested new elements (span
 roles, features, nested word references) links and processes all of them

Nested elements are now added after their parent and within its context, are always
linked to their parent, and are postprocessed only once they are in place. Adding to a
parent that does not exist no longer leaves orphans behind.
---
 src/document.rs | 88 ++++++++++++++++++++-----------------------------
 1 file changed, 35 insertions(+), 53 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index f53a829..0fed8fb 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -172,8 +172,12 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        let mut added_elements: Vec<ElementKey> = Vec::new();
+        let key = self.add_with_children(element, None, &mut added_elements)?;
+        for subelement_key in added_elements {
+            self.post_add(subelement_key, None)?;
+        }
+        Ok(key)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
@@ -196,18 +200,17 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,added_subelements) = self.add_children(element)?;
-        match <Self as Store<ElementData,ElementKey>>::add(self, element, Some(parent_key)) {
+        //ensure the parent exists prior to adding anything
+        if self.get_elementdata(parent_key).is_none() {
+            return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
+        }
+        let mut added_elements: Vec<ElementKey> = Vec::new();
+        match self.add_with_children(element, Some(parent_key), &mut added_elements) {
             Ok(child_key) => {
-                if let Some(added_subelements) = added_subelements {
-                    for subchild_key in added_subelements.iter() {
-                        if let Some(subchilddata) = self.get_mut_elementdata(*subchild_key) {
-                            subchilddata.set_parent_key(Some(child_key));
-                        }
-                        self.post_add(*subchild_key, None)?;
-                    }
-                }
                 self.attach_element(parent_key, child_key)?;
+                for subelement_key in added_elements {
+                    self.post_add(subelement_key, None)?;
+                }
                 self.post_add(child_key, None)?;
                 Ok(child_key)
             },
@@ -217,50 +220,29 @@ impl Document {
         }
     }
 
-    ///Before we can add an element, we need to create and add its hitherto 'unborn' children.
-    pub(crate) fn add_children(&mut self, mut element: ElementData) -> Result<(ElementData, Option<Vec<ElementKey>>),FoliaError> {
-        let mut has_unborn_children = false;
-        for child in element.data.iter() {
-            if let DataType::AddElement(_) = child {
-                has_unborn_children = true;
-            }
-        }
-        if has_unborn_children {
-            let mut added_elements: Vec<ElementKey> = Vec::new();
-            let mut new_data: Vec<DataType> = Vec::new();
-            for child in element.data {
-                if let DataType::AddElement(child_elementdata) = child {
-                    //first we do a recursion step to add the grandchildren, if any
-                    let child_key = match self.add_children(child_elementdata) {
-                        Ok((child_elementdata_new, Some(added_grandchildren))) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            for grandchild_key in added_grandchildren {
-                                if let Some(subchilddata) = self.get_mut_elementdata(grandchild_key) {
-                                    subchilddata.set_parent_key(Some(child_key));
-                                }
-                                self.post_add(grandchild_key, None)?;
-                            }
-                            child_key
-                        },
-                        Ok((child_elementdata_new, None)) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            child_key
-                        }
-                        Err(e) => {
-                            return Err(e);
-                        }
-                    };
-                    new_data.push(DataType::Element(child_key));
-                    added_elements.push(child_key);
-                } else {
-                    new_data.push(child);
+    ///Adds an element along with its hitherto 'unborn' children (recursively). The element itself is not
+    ///attached to anything yet. The keys of all the elements that were added below it are
+    ///appended to ``added_elements``, children always precede their parents. Invoke ``post_add()`` on
+    ///those once the element is in its proper place.
+    pub(crate) fn add_with_children(&mut self, mut element: ElementData, context: Option<ElementKey>, added_elements: &mut Vec<ElementKey>) -> Result<ElementKey,FoliaError> {
+        let data: Vec<DataType> = std::mem::replace(&mut element.data, Vec::new());
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, context)?;
+        for child in data {
+            let child = if let DataType::AddElement(child_elementdata) = child {
+                let child_key = self.add_with_children(child_elementdata, Some(key), added_elements)?;
+                if let Some(child_elementdata) = self.get_mut_elementdata(child_key) {
+                    child_elementdata.set_parent_key(Some(key));
                 }
+                added_elements.push(child_key);
+                DataType::Element(child_key)
+            } else {
+                child
+            };
+            if let Some(elementdata) = self.get_mut_elementdata(key) {
+                elementdata.push(child);
             }
-            element.data = new_data;
-            Ok((element, Some(added_elements)))
-        } else {
-            Ok((element, None))
         }
+        Ok(key)
     }
 
     ///Adds the child element to the parent element, automatically takes care
-- 
2.43.0


From 78f9e700b323628a4df50f2093dd1193ce7e6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 15/39] fix: refuse elements with an ID that is already in use

Adding such an element returned (and re-attached) the existing element and lost the new
one, and a nested duplicate in the input made an element its own ancestor.
---
 src/document.rs | 24 ++++++++++++++++++++++++
 src/parser.rs   |  2 ++
 2 files changed, 26 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 0fed8fb..a9bd27d 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -172,6 +172,7 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
+        self.check_ids_addable(&element)?;
         let mut added_elements: Vec<ElementKey> = Vec::new();
         let key = self.add_with_children(element, None, &mut added_elements)?;
         for subelement_key in added_elements {
@@ -204,6 +205,7 @@ impl Document {
         if self.get_elementdata(parent_key).is_none() {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         }
+        self.check_ids_addable(&element)?;
         let mut added_elements: Vec<ElementKey> = Vec::new();
         match self.add_with_children(element, Some(parent_key), &mut added_elements) {
             Ok(child_key) => {
@@ -726,6 +728,28 @@ impl Document {
 
     //************** Validation methods ****************
     //
+
+    ///IDs must be unique in a document, this tests whether the IDs of the specified element, and of
+    ///all its yet unborn children, are not in use yet.
+    pub fn check_ids_addable(&self, element: &ElementData) -> Result<(), FoliaError> {
+        let mut ids: Vec<&str> = Vec::new();
+        let mut queue: Vec<&ElementData> = vec![element];
+        while let Some(element) = queue.pop() {
+            if let Some(id) = element.id() {
+                if self.get_element_key_by_id(id).is_some() || ids.contains(&id) {
+                    return Err(FoliaError::ValidationError(format!("Duplicate ID: {}", id)));
+                }
+                ids.push(id);
+            }
+            for child in element.data.iter() {
+                if let DataType::AddElement(child) = child {
+                    queue.push(child);
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn check_element_addable(&self, parent_key: ElementKey, element: &ElementData) -> Result<(), FoliaError> {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
diff --git a/src/parser.rs b/src/parser.rs
index 2c57d92..f34f4c3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -351,6 +351,7 @@ impl Document {
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
+                        self.check_ids_addable(&elem)?;
                         let key = self.add(elem,stack.last().map(|key| *key))
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error adding <{}/>", tagname))  )?;
@@ -373,6 +374,7 @@ impl Document {
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
+                        self.check_ids_addable(&elem)?;
                         let key = self.add(elem,stack.last().map(|key| *key))
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error adding <{}>", tagname))  )?;
-- 
2.43.0


From 94d4d0caee53c04da9c5e088af34575978fc28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 16/39] fix: parse declarations without annotators in short
 form, and empty bodies

---
 src/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f34f4c3..cd415e4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,6 +131,11 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
+                            //declaration without annotators
+                            let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
+                            doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
+                        },
                         _ => {
                         }
                     }
@@ -291,10 +296,12 @@ impl Document {
         };
 
         //find body
+        let mut emptybody;
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
+            emptybody = if let (_, Event::Empty(_)) = e { true } else { false };
             match e {
-                (ref ns, Event::Start(ref e)) => {
+                (ref ns, Event::Start(ref e)) | (ref ns, Event::Empty(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
                             if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text) {
@@ -330,7 +337,9 @@ impl Document {
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
-            doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            if !emptybody {
+                doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From 0268fdae57fea9440ab509a142c4628600c4c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 17/39] fix: input that ends before the body does is an error
 rather than a shortened document

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cd415e4..e413870 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -450,7 +450,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From 5841b4f392e89f38adbe75faa6d49d482bb75de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 18/39] fix: malformed attributes and names in the input are
 errors instead of panics

---
 src/attrib.rs |  2 +-
 src/parser.rs | 59 ++++++++++++++++++++++++++++-----------------------
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 78fe893..3452d07 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -373,7 +373,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/parser.rs b/src/parser.rs
index e413870..795107c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,13 +53,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -110,14 +110,14 @@ impl Document {
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"processor" => {
                                             processor_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -144,7 +144,7 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"src" => {
@@ -154,7 +154,7 @@ impl Document {
                                             doc.metadata.metadatatype = Some(value);
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -168,7 +168,7 @@ impl Document {
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"xml:id" => {
@@ -178,7 +178,7 @@ impl Document {
                                             submetadata_type = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -189,14 +189,14 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"id" | b"xml:id" => {
                                             meta_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -220,13 +220,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -319,10 +319,10 @@ impl Document {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -356,7 +356,7 @@ impl Document {
                     (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
                         //EMPTY TAG FOUND (<tag/>)
                         //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_name(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
@@ -379,7 +379,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_name(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -405,7 +405,7 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
+                            let elementname = decode_name(e.local_name())?;
                             let elementtype = ElementType::from_str(elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
@@ -462,6 +462,11 @@ impl Document {
     }
 }
 
+///Decodes the name of an XML tag
+fn decode_name(name: &[u8]) -> Result<&str, FoliaError> {
+    str::from_utf8(name).map_err(|_| FoliaError::ParseError(format!("XML tag is not valid utf-8: {}", String::from_utf8_lossy(name))))
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
@@ -487,7 +492,7 @@ impl Processor {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
             if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
+                let value = attrib.unescape_and_decode_value(&reader)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -522,7 +527,7 @@ impl Processor {
                         }
                     }},
                     tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
                 }
             }
@@ -536,7 +541,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -550,7 +555,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && Some(attrib.key) == properties.subset.map(|subset| subset.as_bytes()) {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -574,7 +579,7 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
+        let elementname = decode_name(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
@@ -584,12 +589,12 @@ impl ElementData {
 
 impl Declaration {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(decode_name(tag)?)?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"set" => {
@@ -608,7 +613,7 @@ impl Declaration {
                         //TODO: handle old-style default
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
             }
-- 
2.43.0


From 3d4f97b1badfb057f1cc096a9ea987c49f49e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 19/39] fix: a processor can not be attached below itself, and
 leaves its old parent when attached to another

---
 src/document.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index a9bd27d..6bde34d 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -419,14 +419,32 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        //ensure a processor never becomes a subprocessor of itself or of one of its own subprocessors
+        let mut ancestor_key: Option<ProcKey> = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Processor {} can not be attached below itself", child_key)));
+            }
+            ancestor_key = self.get_processor(key).and_then(|processor| processor.parent);
+        }
+
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
-            child.parent = Some(parent_key);
+            child.parent.replace(parent_key)
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        if let Some(oldparent_key) = oldparent_key {
+            if oldparent_key != parent_key {
+                //detach child from the old parent
+                if let Some(oldparent) = self.get_mut_processor(oldparent_key) {
+                    oldparent.processors.retain(|key| *key != child_key);
+                }
+            }
+        }
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             if !parent.processors.contains(&child_key) {
                 parent.processors.push(child_key);
-- 
2.43.0


From 0018075d51769d39e3b2afc626d26433de8b1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 20/39] fix: submetadata is read, and serialised within its own
 element with its own type and source

---
 src/parser.rs     | 62 +++++++++++++++++++++++++++++------------------
 src/serialiser.rs |  6 ++++-
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 795107c..b485095 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -86,7 +86,6 @@ impl Document {
         let mut parsedeclarations = false;
         let mut parseprovenance = false;
         let mut submetadata: Option<String> = None;
-        let mut submetadata_type: Option<String> = None;
         let mut text: Option<String> = None;
         let mut meta_id: Option<String> = None;
         let mut declaration_key: Option<DecKey> = None;
@@ -131,6 +130,10 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            let (id, metadata) = Metadata::parse_submetadata(&reader, &e)?;
+                            doc.submetadata.insert(id, metadata);
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             //declaration without annotators
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
@@ -167,25 +170,9 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
-                            for attrib in e.attributes() {
-                                let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            submetadata_type = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
-                                    }
-                                }
-                            }
-                            if submetadata.is_none() {
-                                return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
-                            }
+                            let (id, metadata) = Metadata::parse_submetadata(&reader, &e)?;
+                            doc.submetadata.insert(id.clone(), metadata);
+                            submetadata = Some(id);
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
@@ -269,9 +256,6 @@ impl Document {
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-                                        if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
-                                            submetadata.metadatatype = submetadata_type.clone();
-                                        }
                                         submetadata.data.insert(meta_id.clone(), text.clone());
                                     }
                                 } else {
@@ -484,6 +468,38 @@ fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     }
 }
 
+impl Metadata {
+    ///Parses a submetadata element from XML, returns its ID as well. Note that this does not
+    ///handle the child elements, those are handled by the main parser
+    pub(crate) fn parse_submetadata<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(String,Metadata), FoliaError> {
+        let mut id: Option<String> = None;
+        let mut metadata = Metadata::default();
+        for attrib in event.attributes() {
+            let attrib = attrib?;
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match attrib.key {
+                b"xml:id" => {
+                    id = Some(value);
+                },
+                b"type" => {
+                    metadata.metadatatype = Some(value);
+                },
+                b"src" => {
+                    metadata.src = Some(value);
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
+                }
+            }
+        }
+        if let Some(id) = id {
+            Ok((id, metadata))
+        } else {
+            Err(FoliaError::ParseError("Submetadata has no ID".to_string()))
+        }
+    }
+}
+
 impl Processor {
 
     ///Parse this element from XML, note that this does not handle the child elements, those are
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 10516d9..40115c4 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From b4db2a126f3d013311621b73a973a18e17d2341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 21/39] fix: metadata fields keep their own ID and value, also
 when empty, and those of processors belong to the processor

---
 src/parser.rs     | 19 +++++++++++++------
 src/serialiser.rs |  9 ++++++++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b485095..04b75b6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -175,6 +175,7 @@ impl Document {
                             submetadata = Some(id);
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
+                            meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -188,7 +189,7 @@ impl Document {
                                     }
                                 }
                             }
-                            text = None;
+                            text = Some(String::new());
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
@@ -222,7 +223,9 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
@@ -252,14 +255,18 @@ impl Document {
                             processor_stack.pop();
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
-                            if let (Some(text), Some(meta_id)) = (&text, &meta_id) {
-                                if let Some(submetadata_id) = &submetadata {
+                            if let (Some(text), Some(meta_id)) = (text.take(), meta_id.take()) {
+                                if let Some(processor_key) = processor_stack.last() {
+                                    if let Some(processor) = doc.get_mut_processor(*processor_key) {
+                                        processor.metadata.data.insert(meta_id, text);
+                                    }
+                                } else if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-                                        submetadata.data.insert(meta_id.clone(), text.clone());
+                                        submetadata.data.insert(meta_id, text);
                                     }
                                 } else {
-                                    doc.metadata.data.insert(meta_id.clone(), text.clone());
+                                    doc.metadata.data.insert(meta_id, text);
                                 }
                             }
                         },
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 40115c4..9c5f912 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -192,10 +192,17 @@ impl Document {
             if !processor.resourcelink.is_empty() {
                 processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
             }
-            if processor.processors.is_empty() {
+            if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
+                for (meta_id, value) in processor.metadata.data.iter() {
+                    let mut meta_start = BytesStart::borrowed_name(b"meta");
+                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
+                }
                 for subprocessor_key in processor.processors.iter() {
                     self.xml_processor(writer, *subprocessor_key)?;
                 }
-- 
2.43.0


From 96ff1f2992721772be07e19680a7bfeb0b4e38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 22/39] fix: support the tag attribute, documents using it
 could not be read

---
 src/attrib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 3452d07..d94a280 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -101,6 +101,7 @@ pub enum Attribute {
     PageNr(String), //used by linebreak
     NewPage(bool), //used by linebreak
     XLinkType(String),
+    Tag(String),
 
     Processor(String),
     ProcessorRef(ProcKey), //encoded form
@@ -149,7 +150,7 @@ impl Attribute {
             Attribute::Id(s) | Attribute::Set(s) | Attribute::Class(s) | Attribute::Annotator(s) |
             Attribute::N(s) | Attribute::BeginTime(s) | Attribute::EndTime(s) |
             Attribute::Src(s) | Attribute::Speaker(s) | Attribute::Textclass(s) | Attribute::Metadata(s) | Attribute::Idref(s) |
-            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s)
+            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s) | Attribute::Tag(s)
                 => Ok(&s),
             Attribute::AnnotatorType(t) => Ok(t.as_str()),
             Attribute::Space(b) => { if *b { Ok("yes") } else { Ok("no") } },
@@ -226,6 +227,7 @@ impl Attribute {
             Attribute::Original(_) => AttribType::ORIGINAL,
             Attribute::LineNr(_) => AttribType::LINENR,
             Attribute::PageNr(_) => AttribType::PAGENR,
+            Attribute::Tag(_) => AttribType::TAG,
             Attribute::NewPage(_) => AttribType::NEWPAGE
         }
     }
@@ -328,6 +330,9 @@ impl Attribute {
                 b"pagenr" => {
                     Ok(Attribute::PageNr(value))
                 },
+                b"tag" => {
+                    Ok(Attribute::Tag(value))
+                },
                 b"offset" => {
                     if let Ok(value) = u16::from_str(&value) {
                         Ok(Attribute::Offset(value))
-- 
2.43.0


From d606160242d3d77f3e6c48cf8dde4543a43c212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 23/39] fix: serialisation adds no whitespace where whitespace
 is significant

---
 src/serialiser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 9c5f912..a0a7487 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -219,14 +219,16 @@ impl Document {
         let dec_is_default: Vec<bool> = self.declarationstore.default_mask();
 
         //Select children
-        let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        //the stack holds the end tag and whether we are in inline context, i.e. inside an element in
+        //which whitespace is significant
+        let mut stack: Vec<(BytesEnd,bool,String)> = vec![];
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
-                if let Some((end,elementtype,_tagstring)) = stack.pop() {
+                if let Some((end,_inline,_tagstring)) = stack.pop() {
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    if !stack.last().map(|(_,inline,_)| *inline).unwrap_or(false) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -279,16 +281,22 @@ impl Document {
                                 }
                             }
                         }
+                        let mut inline = stack.last().map(|(_,inline,_)| *inline).unwrap_or(false);
                         if element.data.is_empty() {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
+                            //whitespace is significant in text containers and wherever there is text
+                            let properties = self.props(element.elementtype());
+                            inline = inline || properties.textcontainer || properties.phoncontainer ||
+                                ElementGroup::TextMarkup.contains(element.elementtype()) ||
+                                element.elementdata().data.iter().any(|data| if let DataType::Text(_) = data { true } else { false });
                             writer.write_event(Event::Start(start)).map_err(to_serialisation_error)?;
                             let end = BytesEnd::owned(tag.to_vec());
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
-                            stack.push((end,element.elementtype(),tagstring));
+                            stack.push((end,inline,tagstring));
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        if !inline {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
@@ -312,7 +320,7 @@ impl Document {
         }
 
         //don't forget the final closing elements
-        while let Some((end, _elementtype, _tagstring)) = stack.pop() {
+        while let Some((end, _inline, _tagstring)) = stack.pop() {
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
-- 
2.43.0


From ad6743c9d9584207258aff8da0df90cc08665017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 24/39] fix: spaces between markup inside text content are part
 of the text

---
 src/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 04b75b6..dca4bf5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -412,7 +412,7 @@ impl Document {
                     },
                     (None, Event::Text(s)) => {
                         let text = s.unescape_and_decode(reader)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || self.is_significant_space(&text, stack.last()) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text));
@@ -422,7 +422,7 @@ impl Document {
                     },
                     (None, Event::CData(s)) => {
                         let text = reader.decode(&s)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || self.is_significant_space(text, stack.last()) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text.to_string()));
@@ -451,6 +451,18 @@ impl Document {
             Err(FoliaError::InternalError("No root element".to_string()))
         }
     }
+
+    ///Tests whether whitespace is part of the content of the specified element. This is the case in
+    ///text containers (e.g. the space between two pieces of markup), unless it contains newlines, as
+    ///that is how indentation manifests itself.
+    fn is_significant_space(&self, text: &str, parent_key: Option<&ElementKey>) -> bool {
+        if let Some(parent) = parent_key.and_then(|key| self.get_elementdata(*key)) {
+            let properties = self.props(parent.elementtype);
+            !text.is_empty() && !text.contains('\n') && (properties.textcontainer || properties.phoncontainer)
+        } else {
+            false
+        }
+    }
 }
 
 ///Decodes the name of an XML tag
-- 
2.43.0


From a23f06933a3cd149bcc0170f2168b16192bdccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 25/39] fix: a set that is the default is still serialised if
 the element has nothing else it can be recovered from

---
 src/serialiser.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index a0a7487..6f8faba 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -250,8 +250,17 @@ impl Document {
                             }
                         }
                         if let Some(declaration_key) = element.declaration_key() {
+                            //check if this processor is the default one, if so we don't need
+                            //to serialise it
+                            let processor_is_default: bool = self.get_declaration(declaration_key).map(|declaration| {
+                                declaration.processors.len() == 1 && declaration.processors.get(0) == element.processor_key().as_ref()
+                            }).unwrap_or(false);
+                            //defaults are only recovered for elements that have at least one of set, class,
+                            //subset or processor, so we can not leave out everything
+                            let bare: bool = element.subset().is_none() && element.class().is_none() && (processor_is_default || element.processor().is_none());
+
                             //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
+                            if (bare || !dec_is_default.get(declaration_key as usize).expect("checking default")) && element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
@@ -264,19 +273,7 @@ impl Document {
                                 start.push_attribute(("class", class) );
                             }
                             if let Some(processor) = element.processor() {
-                                //check if this processor is the default one, if so we don't need
-                                //to serialise it
-                                let is_default: bool = if let Some(declaration) = self.get_declaration(declaration_key) {
-                                    if declaration.processors.len() == 1 {
-                                        declaration.processors.get(0) == element.processor_key().as_ref()
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                };
-
-                                if !is_default {
+                                if !processor_is_default || (bare && element.set().is_none()) {
                                     start.push_attribute(("processor", processor) );
                                 }
                             }
-- 
2.43.0


From 69221731adb619108e7a6cab6c756e48333f9389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 26/39] fix: stack overflow when looking for an ancestor in a
 very deep document

---
 src/select.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 268241c..c8f60d0 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -664,7 +664,7 @@ impl<'a> Iterator for AncestorIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(element) = self.document.get_elementdata(self.key) {
+        while let Some(element) = self.document.get_elementdata(self.key) {
             if let Some(parent_key) = element.parent {
                 self.key = parent_key;
                 if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
@@ -673,11 +673,12 @@ impl<'a> Iterator for AncestorIterator<'a> {
                     });
                 } else {
                     let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
-                    if self.recursion.eval(parent_type) {
-                        //recurse
-                        return self.next();
+                    if !self.recursion.eval(parent_type) {
+                        return None;
                     }
                 }
+            } else {
+                return None;
             }
         }
         None
-- 
2.43.0


From d3580f7ca374fe64037499ee5f91df14ab56aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 27/39] fix: word references that precede what they refer to
 are resolved, rather than refused

---
 src/parser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dca4bf5..230a312 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -341,6 +341,7 @@ impl Document {
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
             let mut stack: Vec<ElementKey> = vec![0]; //0 is the root/body element, we always start with it
+            let mut wrefs: Vec<ElementKey> = vec![]; //references are resolved at the end, as they may precede what they refer to
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
@@ -352,6 +353,7 @@ impl Document {
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
                         self.check_ids_addable(&elem)?;
+                        let elementtype = elem.elementtype;
                         let key = self.add(elem,stack.last().map(|key| *key))
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error adding <{}/>", tagname))  )?;
@@ -365,7 +367,11 @@ impl Document {
                             let child_key = self.add(child, Some(key))?;
                             self.attach_element(key, child_key)?;
                         }
-                        self.post_add(key, Some(&stack))?;
+                        if elementtype == ElementType::WordReference {
+                            wrefs.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                     },
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
@@ -392,7 +398,11 @@ impl Document {
                             break;
                         }
                         let key = stack.pop().unwrap();
-                        self.post_add(key, Some(&stack))?;
+                        if let Some(ElementType::WordReference) = self.get_elementdata(key).map(|elem| elem.elementtype) {
+                            wrefs.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
@@ -446,6 +456,9 @@ impl Document {
                     (_,_) => {}
                 }
             };
+            for key in wrefs {
+                self.post_add(key, None)?;
+            }
             Ok(())
         } else {
             Err(FoliaError::InternalError("No root element".to_string()))
-- 
2.43.0


From 746e3bab03bdecc7df41e59d3f3556c794378b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 28/39] fix: text with a linebreak in it is text

---
 src/text.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 62f7bcb..b97deda 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -81,8 +81,11 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
-                                text += &textpart;
+                                match element.text_by_key(set,textclass,strict, retaintokenisation,None) {
+                                    Ok(textpart) => text += &textpart,
+                                    Err(FoliaError::NoTextError(_)) => {}, //e.g. a linebreak
+                                    Err(err) => return Err(err)
+                                }
                             }
                         }
                     },
-- 
2.43.0


From cb3d94662920a592efd760dabcb0d2ff3d06fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 29/39] fix: comments without anything in them are not lost

---
 src/parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 230a312..0d69eb2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -442,12 +442,10 @@ impl Document {
                     },
                     (None, Event::Comment(s)) => {
                         let comment = reader.decode(&s)?;
-                        if comment.trim() != "" {
-                            if let Some(parent_key) = stack.last() {
-                                self.get_mut_elementdata(*parent_key).map( |parent| {
-                                    parent.push(DataType::Comment(comment.to_string()));
-                                });
-                            }
+                        if let Some(parent_key) = stack.last() {
+                            self.get_mut_elementdata(*parent_key).map( |parent| {
+                                parent.push(DataType::Comment(comment.to_string()));
+                            });
                         }
                     },
                     (_, Event::Eof) => {
-- 
2.43.0


From 7fb1aed3c2c5897b0b656eb0acf24c39861700aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 30/39] fix: special characters in CDATA are read as they are,
 rather than as entity references

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0d69eb2..e7bc717 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -431,11 +431,11 @@ impl Document {
                         }
                     },
                     (None, Event::CData(s)) => {
-                        let text = reader.decode(&s)?;
-                        if text.trim() != "" || self.is_significant_space(text, stack.last()) {
+                        let text = s.unescape_and_decode(reader)?; //(the reader returns CDATA in escaped form)
+                        if text.trim() != "" || self.is_significant_space(&text, stack.last()) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
-                                    parent.push(DataType::Text(text.to_string()));
+                                    parent.push(DataType::Text(text));
                                 });
                             }
                         }
-- 
2.43.0


From ac8c86a7e87493426961ceb9fb9dcf0a62472fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 31/39] fix: CDATA in metadata is not lost

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e7bc717..5fe7059 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -221,7 +221,7 @@ impl Document {
                         }
                     }
                 },
-                (None, Event::Text(s)) => {
+                (None, Event::Text(s)) | (None, Event::CData(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
                     if let Some(text) = text.as_mut() {
                         text.push_str(&text_s);
-- 
2.43.0


From 03e51a4eec64c4b3c32ff3f6a26ec5cf2b075b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 32/39] fix: metadata fields without a value are not lost

---
 src/parser.rs | 67 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5fe7059..16e1965 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -134,6 +134,11 @@ impl Document {
                             let (id, metadata) = Metadata::parse_submetadata(&reader, &e)?;
                             doc.submetadata.insert(id, metadata);
                         },
+                        (Some(ns), b"meta") if ns == NSFOLIA => {
+                            if let Some(meta_id) = parse_meta_id(&reader, &e)? {
+                                doc.add_meta(processor_stack.last(), submetadata.as_ref(), meta_id, String::new());
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             //declaration without annotators
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
@@ -175,20 +180,7 @@ impl Document {
                             submetadata = Some(id);
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
-                            meta_id = None;
-                            for attrib in e.attributes() {
-                                let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"id" | b"xml:id" => {
-                                            meta_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
-                                    }
-                                }
-                            }
+                            meta_id = parse_meta_id(&reader, &e)?;
                             text = Some(String::new());
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
@@ -256,18 +248,7 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let (Some(text), Some(meta_id)) = (text.take(), meta_id.take()) {
-                                if let Some(processor_key) = processor_stack.last() {
-                                    if let Some(processor) = doc.get_mut_processor(*processor_key) {
-                                        processor.metadata.data.insert(meta_id, text);
-                                    }
-                                } else if let Some(submetadata_id) = &submetadata {
-                                    let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
-                                    if let Some(submetadata) = submetadata_opt {
-                                        submetadata.data.insert(meta_id, text);
-                                    }
-                                } else {
-                                    doc.metadata.data.insert(meta_id, text);
-                                }
+                                doc.add_meta(processor_stack.last(), submetadata.as_ref(), meta_id, text);
                             }
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
@@ -463,6 +444,21 @@ impl Document {
         }
     }
 
+    ///Stores a metadata field with the processor or submetadata it is in, or else with the document itself
+    fn add_meta(&mut self, processor_key: Option<&ProcKey>, submetadata_id: Option<&String>, id: String, value: String) {
+        if let Some(processor_key) = processor_key {
+            if let Some(processor) = self.get_mut_processor(*processor_key) {
+                processor.metadata.data.insert(id, value);
+            }
+        } else if let Some(submetadata_id) = submetadata_id {
+            if let Some(submetadata) = self.submetadata.get_mut(submetadata_id) {
+                submetadata.data.insert(id, value);
+            }
+        } else {
+            self.metadata.data.insert(id, value);
+        }
+    }
+
     ///Tests whether whitespace is part of the content of the specified element. This is the case in
     ///text containers (e.g. the space between two pieces of markup), unless it contains newlines, as
     ///that is how indentation manifests itself.
@@ -481,6 +477,25 @@ fn decode_name(name: &[u8]) -> Result<&str, FoliaError> {
     str::from_utf8(name).map_err(|_| FoliaError::ParseError(format!("XML tag is not valid utf-8: {}", String::from_utf8_lossy(name))))
 }
 
+///Parses the ID of a metadata field
+fn parse_meta_id<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
+    let mut meta_id = None;
+    for attrib in event.attributes() {
+        let attrib = attrib?;
+        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            match attrib.key {
+                b"id" | b"xml:id" => {
+                    meta_id = Some(value.clone());
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
+                }
+            }
+        }
+    }
+    Ok(meta_id)
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
-- 
2.43.0


From 2221b546c2a57af7a2e237df1e72c9cf3971a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 33/39] fix: the set of a feature is serialised if it differs
 from that of its parent

---
 src/serialiser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 6f8faba..b140660 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -260,7 +260,13 @@ impl Document {
                             let bare: bool = element.subset().is_none() && element.class().is_none() && (processor_is_default || element.processor().is_none());
 
                             //check if the declaration is the default, no need to serialise set then
-                            if (bare || !dec_is_default.get(declaration_key as usize).expect("checking default")) && element.elementtype() != ElementType::Feature {
+                            let serialise_set: bool = if element.elementtype() == ElementType::Feature {
+                                //a feature is in the same set as its parent
+                                element.get_parent().and_then(|parent| parent.declaration_key()) != Some(declaration_key)
+                            } else {
+                                bare || !dec_is_default.get(declaration_key as usize).expect("checking default")
+                            };
+                            if serialise_set {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
-- 
2.43.0


From 3e878e7760ac2082e151c6fc7ef2cefb9d82456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 34/39] fix: back references to spans do not influence the
 layout of the output

---
 src/serialiser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index b140660..570241b 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -225,6 +225,9 @@ impl Document {
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
+            if let DataType::SpanReference(_) | DataType::AddElement(_) = item.data {
+                continue; //does not serialise
+            }
             while item.depth < previous_depth {
                 if let Some((end,_inline,_tagstring)) = stack.pop() {
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
@@ -285,7 +288,7 @@ impl Document {
                             }
                         }
                         let mut inline = stack.last().map(|(_,inline,_)| *inline).unwrap_or(false);
-                        if element.data.is_empty() {
+                        if element.elementdata().data.iter().all(|data| if let DataType::SpanReference(_) | DataType::AddElement(_) = data { true } else { false }) {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
                             //whitespace is significant in text containers and wherever there is text
-- 
2.43.0


From c63f3b7714f29a36cb941f3e1a49ef3487c3733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:01 +0000
Subject: [PATCH 35/39] fix: existing processors given to a new processor as
 its subprocessors get it as their parent

---
 src/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 6bde34d..490c16a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -383,13 +383,17 @@ impl Document {
 
     ///Add an element to the provenance chain
     ///Returns the key
-    pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
+        let existing_subprocessors: Vec<ProcKey> = std::mem::replace(&mut processor.processors, vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             if !self.provenancestore.chain.contains(&child_key) {
                 self.provenancestore.chain.push(child_key);
             }
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -399,11 +403,15 @@ impl Document {
 
     ///Add a processor as a subprocessor
     ///Returns the key
-    pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
+        let existing_subprocessors: Vec<ProcKey> = std::mem::replace(&mut processor.processors, vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             self.attach_processor(parent_key, child_key)?;
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
-- 
2.43.0


From ca7546c657d4680082ea9d3bdc5b6fb5d89e644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 36/39] fix: an element can not be attached below itself

---
 src/document.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 490c16a..09ed6fb 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -255,6 +255,15 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
 
+        //ensure an element never ends up below itself
+        let mut ancestor_key: Option<ElementKey> = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Element {} can not be attached below itself", child_key)));
+            }
+            ancestor_key = self.get_elementdata(key).and_then(|element| element.parent_key());
+        }
+
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
             let tmp = child.parent_key();
-- 
2.43.0


From 9f172de7feb03e044e5e4ed3a0119f2410018da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 37/39] fix: existing elements given to a new element as its
 children get it as their parent

---
 src/document.rs | 52 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 09ed6fb..996fcb9 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -173,6 +173,7 @@ impl Document {
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
         self.check_ids_addable(&element)?;
+        self.check_children_addable(None, &element)?;
         let mut added_elements: Vec<ElementKey> = Vec::new();
         let key = self.add_with_children(element, None, &mut added_elements)?;
         for subelement_key in added_elements {
@@ -206,6 +207,7 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         }
         self.check_ids_addable(&element)?;
+        self.check_children_addable(Some(parent_key), &element)?;
         let mut added_elements: Vec<ElementKey> = Vec::new();
         match self.add_with_children(element, Some(parent_key), &mut added_elements) {
             Ok(child_key) => {
@@ -230,18 +232,19 @@ impl Document {
         let data: Vec<DataType> = std::mem::replace(&mut element.data, Vec::new());
         let key = <Self as Store<ElementData,ElementKey>>::add(self, element, context)?;
         for child in data {
-            let child = if let DataType::AddElement(child_elementdata) = child {
-                let child_key = self.add_with_children(child_elementdata, Some(key), added_elements)?;
-                if let Some(child_elementdata) = self.get_mut_elementdata(child_key) {
-                    child_elementdata.set_parent_key(Some(key));
+            match child {
+                DataType::AddElement(child_elementdata) => {
+                    let child_key = self.add_with_children(child_elementdata, Some(key), added_elements)?;
+                    self.attach_element(key, child_key)?;
+                    added_elements.push(child_key);
+                },
+                DataType::Element(child_key) => {
+                    //the child already exists
+                    self.attach_element(key, child_key)?;
+                },
+                child => if let Some(elementdata) = self.get_mut_elementdata(key) {
+                    elementdata.push(child);
                 }
-                added_elements.push(child_key);
-                DataType::Element(child_key)
-            } else {
-                child
-            };
-            if let Some(elementdata) = self.get_mut_elementdata(key) {
-                elementdata.push(child);
             }
         }
         Ok(key)
@@ -785,6 +788,33 @@ impl Document {
         Ok(())
     }
 
+    ///Existing elements that are given as children of a new element, or of any of its yet unborn children, must
+    ///exist and may not be what the new element is going to be added to, nor any of its ancestors.
+    fn check_children_addable(&self, parent_key: Option<ElementKey>, element: &ElementData) -> Result<(), FoliaError> {
+        let mut queue: Vec<&ElementData> = vec![element];
+        while let Some(element) = queue.pop() {
+            for child in element.data.iter() {
+                match child {
+                    DataType::AddElement(child) => queue.push(child),
+                    DataType::Element(child_key) => {
+                        if self.get_elementdata(*child_key).is_none() {
+                            return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
+                        }
+                        let mut ancestor_key: Option<ElementKey> = parent_key;
+                        while let Some(key) = ancestor_key {
+                            if key == *child_key {
+                                return Err(FoliaError::ValidationError(format!("Element {} can not be added below itself", child_key)));
+                            }
+                            ancestor_key = self.get_elementdata(key).and_then(|element| element.parent_key());
+                        }
+                    },
+                    _ => {}
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn check_element_addable(&self, parent_key: ElementKey, element: &ElementData) -> Result<(), FoliaError> {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
-- 
2.43.0


From 04d34ec6d1e777964ffa0e4f0f1541ccbe3d5344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:35 +0000
Subject: [PATCH 38/39] fix: a query for any feature in some context looks at
 the declaration of that context

---
 src/select.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index c8f60d0..f6c5fc7 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -49,11 +49,16 @@ impl Selector {
         selector.annotator = query.annotator.clone();
         selector.annotatortype = query.annotatortype.clone();
         selector.datatypes = vec![DataTypeSelector::Elements];
-        //if we have subsets, we use contexttype instead of elementtype (because elementtype will
-        //always be ElementType::feature)
-        let elementtype_source: &Cmp<ElementType> = match &query.subset {
-            Cmp::Some | Cmp::Is(_) =>  &query.contexttype,
-            _ => &query.elementtype,
+        //if we have subsets, or ask for any feature in some context, we use contexttype instead of
+        //elementtype (because elementtype will always be ElementType::feature)
+        let for_feature: bool = match (&query.subset, &query.elementtype, &query.contexttype) {
+            (Cmp::Some, _, _) | (Cmp::Is(_), _, _) => true,
+            (_, Cmp::Is(ElementType::Feature), Cmp::Is(_)) => true,
+            _ => false,
+        };
+        let elementtype_source: &Cmp<ElementType> = match for_feature {
+            true =>  &query.contexttype,
+            false => &query.elementtype,
         };
         selector.set = match &query.set {
             Cmp::Is(set) => {
@@ -110,14 +115,14 @@ impl Selector {
                 let mut result: Cmp<ClassKey> = Cmp::Unmatchable; //will try to falsify this
                 if let Cmp::Is(deckey) = selector.set {
                     if let Some(declaration) = document.get_declaration(deckey) {
-                        match selector.subset {
-                            Cmp::Is(_) | Cmp::Some =>  {
-                                //we have a subset, so we assume the class is a subclass and encode it as such
+                        match for_feature {
+                            true =>  {
+                                //we ask for a feature, so we assume the class is a subclass and encode it as such
                                 if let Some(class_key) = declaration.subclass_key(class.as_str()) {
                                     result = Cmp::Is(class_key);
                                 }
                             },
-                            _ =>  {
+                            false =>  {
                                 //normal class
                                 if let Some(class_key) = declaration.class_key(class.as_str()) {
                                     result = Cmp::Is(class_key);
-- 
2.43.0


From daab152cf26abc6674648b13498d353c4e7259bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:37 +0000
Subject: [PATCH 39/39] fix: a subset of a declaration the document does not
 have matches nothing

---
 src/select.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index f6c5fc7..60a7aec 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -100,6 +100,8 @@ impl Selector {
                             result = Cmp::Is(subset_key);
                         }
                     }
+                } else if let (Cmp::Is(_), Cmp::Is(_)) | (Cmp::Is(_), Cmp::None) = (elementtype_source, &query.set) {
+                    //the document has no such declaration: the set is unmatchable and so is the subset
                 } else {
                     return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
                 }
-- 
2.43.0

