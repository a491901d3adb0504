From b9b2ddfebd1408e1e38b6a59c6b9cd08b6787ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 01/37] fix: do not let a value's registered connector keep the
 value alive forever

---
 crates/vertigo/src/computed/value.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/computed/value.rs b/crates/vertigo/src/computed/value.rs
index 05b3b39..706a631 100644
--- a/crates/vertigo/src/computed/value.rs
+++ b/crates/vertigo/src/computed/value.rs
@@ -96,9 +96,16 @@ impl<T: Clone + 'static> Value<T> {
 
         let computed = value.to_computed();
 
-        deps.graph
-            .external_connections
-            .register_connect(id, Rc::new(move || create(&value)));
+        // The connector is stored in the graph until the value is dropped, so it must not own the value.
+        let weak_inner = Rc::downgrade(&value.inner);
+
+        deps.graph.external_connections.register_connect(
+            id,
+            Rc::new(move || match weak_inner.upgrade() {
+                Some(inner) => create(&Value { inner }),
+                None => DropResource::new(|| {}),
+            }),
+        );
 
         computed
     }
-- 
2.43.0


From 5c4d68c5ae2463bb48c30ef9568844b93feecd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 02/37] fix: keep the order of a fragment whose nodes render
 before a marker

---
 crates/vertigo/src/dom/dom_comment.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_comment.rs b/crates/vertigo/src/dom/dom_comment.rs
index 4a785c6..4fb5768 100644
--- a/crates/vertigo/src/dom/dom_comment.rs
+++ b/crates/vertigo/src/dom/dom_comment.rs
@@ -69,20 +69,17 @@ impl DomComment {
         self.subscriptions.push(client);
     }
 
-    pub fn dom_fragment(mut list: Vec<DomNode>) -> DomComment {
-        list.reverse();
-
+    pub fn dom_fragment(list: Vec<DomNode>) -> DomComment {
         Self::new_marker("list dom node", move |parent_id, comment_id| {
-            let mut prev_node = comment_id;
             let driver = get_driver();
 
+            // Nodes are inserted in order, always before the marker. A node being a marker itself places
+            // its content right before it, so such a node can't be a reference for the preceding ones.
             for node in list.iter() {
-                let node_id = node.id_dom();
                 driver
                     .inner
                     .dom
-                    .insert_before(parent_id, node_id, Some(prev_node));
-                prev_node = node_id;
+                    .insert_before(parent_id, node.id_dom(), Some(comment_id));
             }
 
             None
-- 
2.43.0


From 5cb67dc1971ce4322d1491cf5126dfbd48e8deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 03/37] fix: keep the order of list items rendered as markers

---
 crates/vertigo/src/render/dom_list.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/render/dom_list.rs b/crates/vertigo/src/render/dom_list.rs
index 9cf5f05..3dc84b2 100644
--- a/crates/vertigo/src/render/dom_list.rs
+++ b/crates/vertigo/src/render/dom_list.rs
@@ -148,6 +148,9 @@ fn get_pairs_top<T: PartialEq>(
 }
 
 // Try to match starting from bottom
+//
+// The first matched node becomes a reference for inserting new nodes, so a marker is not matched here,
+// because its content is placed before it.
 fn get_pairs_bottom<T: PartialEq>(
     current: &mut VecDeque<(T, DomNode)>,
     new_child: &mut VecDeque<T>,
@@ -160,7 +163,7 @@ fn get_pairs_bottom<T: PartialEq>(
 
         match (node, child) {
             (Some((id1, node)), Some(id2)) => {
-                if id1 == id2 {
+                if id1 == id2 && !matches!(node, DomNode::Comment { .. }) {
                     pairs_bottom.push_front((id1, node));
                     continue;
                 }
@@ -198,18 +201,16 @@ fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
     }
 
     let driver = get_driver();
-    let mut last_before = last_before;
 
-    for item in new_child.into_iter().rev() {
+    for item in new_child.into_iter() {
         let node = real_node.get_or_create(&item);
         let node_id = node.id_dom();
-        pairs_middle.push_front((item, node));
+        pairs_middle.push_back((item, node));
 
         driver
             .inner
             .dom
             .insert_before(parent_id, node_id, Some(last_before));
-        last_before = node_id;
     }
 
     pairs_middle
-- 
2.43.0


From 9e10ba59571be389926e7a774cf2043094356678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 04/37] fix: do not let the suspense callback keep a dropped
 element's state registered

---
 crates/vertigo/src/dom/dom_element_class.rs | 46 ++++++++++++---------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_element_class.rs b/crates/vertigo/src/dom/dom_element_class.rs
index 6284b7c..de53a93 100644
--- a/crates/vertigo/src/dom/dom_element_class.rs
+++ b/crates/vertigo/src/dom/dom_element_class.rs
@@ -106,29 +106,35 @@ impl DomElementClassMerge {
     }
 
     pub fn set_suspense_attr(&self, callback: Option<fn(bool) -> Css>) {
-        self.inner.change(|state| {
-            let Some(callback) = callback else {
-                state._suspense_drop = None;
-                return;
-            };
+        let id_dom = self.inner.change(|state| {
+            state._suspense_drop = None;
+            state.id_dom
+        });
 
-            let drop = get_driver()
-                .inner
-                .dom
-                .dom_suspense
-                .set_layer_callback(state.id_dom, {
-                    let self_clone = self.clone();
-
-                    move |is_loading: bool| {
-                        let css = callback(is_loading);
-
-                        self_clone.inner.change(|state| {
-                            state.suspense_css = Some(css);
-                            state.refresh_dom();
-                        });
-                    }
+        let Some(callback) = callback else {
+            return;
+        };
+
+        // The callback is stored in the driver until it is dropped from here, so it must not own this state.
+        let weak_inner = Rc::downgrade(&self.inner);
+
+        let drop = get_driver().inner.dom.dom_suspense.set_layer_callback(
+            id_dom,
+            move |is_loading: bool| {
+                let Some(inner) = weak_inner.upgrade() else {
+                    return;
+                };
+
+                let css = callback(is_loading);
+
+                inner.change(|state| {
+                    state.suspense_css = Some(css);
+                    state.refresh_dom();
                 });
+            },
+        );
 
+        self.inner.change(|state| {
             state._suspense_drop = Some(drop);
         });
     }
-- 
2.43.0


From c7a72cb1bcc0fc5b8e0cb19f6cb0f60e58b4cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 05/37] fix: do not let the base rule of a class override its
 media queries

---
 crates/vertigo/src/css/css_manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/css/css_manager.rs b/crates/vertigo/src/css/css_manager.rs
index d16084d..e14cdf3 100644
--- a/crates/vertigo/src/css/css_manager.rs
+++ b/crates/vertigo/src/css/css_manager.rs
@@ -29,7 +29,11 @@ impl CssManagerInner {
     }
 
     fn insert_css(&self, css: &str) -> u64 {
-        let (class_id, css_selectors) = transform_css(css, &self.next_id);
+        let (class_id, mut css_selectors) = transform_css(css, &self.next_id);
+
+        // The rule of the class itself comes last, but it has to be inserted first. Otherwise it takes
+        // precedence over the rules of the same class in media queries (they have the same specificity).
+        css_selectors.rotate_right(1);
 
         for (selector, selector_data) in css_selectors {
             (self.insert_css)(&selector, &selector_data);
-- 
2.43.0


From e880c96da078c6a3fa2ad1c8429806396c632194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 06/37] fix: answer the caller when a fetch reply cannot be
 decoded

---
 crates/vertigo/src/driver_module/api/api_import.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 13ebd9b..0f0902a 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -501,6 +501,7 @@ impl ApiImport {
                 }
                 Err(error) => {
                     log::error!("export_fetch_callback -> params decode error -> {error}");
+                    sender.publish(Err(error));
                     on_fetch_stop.trigger(());
                 }
             }
-- 
2.43.0


From b1bc4063fb59150674d0b962f7232d52fa916b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 07/37] fix: do not underflow in Instant::elapsed when the
 clock went back

---
 crates/vertigo/src/instant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vertigo/src/instant.rs b/crates/vertigo/src/instant.rs
index b676f54..0c1f456 100644
--- a/crates/vertigo/src/instant.rs
+++ b/crates/vertigo/src/instant.rs
@@ -28,7 +28,7 @@ impl Instant {
     }
 
     pub fn elapsed(&self) -> InstantType {
-        self.api.instant_now() - self.instant
+        self.api.instant_now().saturating_sub(self.instant)
     }
 
     pub fn seconds_elapsed(&self) -> InstantType {
-- 
2.43.0


From bbde270ffbf019eca48a5e40ac8e186fcf9cea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 08/37] fix: decode object keys the way they are written

JsValue::Object was written (by Rust and by the JavaScript side) with bare
length-prefixed keys, but decoded as if every key were a tagged value, so no
object with a key survived a round trip.
---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index a9af77e..6bb8f94 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -333,10 +333,8 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
             let object_size = buffer.get_u16();
 
             for _ in 0..object_size {
-                let prop_name = decode_js_value_inner(buffer)?;
-                let JsValue::String(prop_name) = prop_name else {
-                    return Err("string expected".into());
-                };
+                let str_len = buffer.get_u32();
+                let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_value_inner(buffer)?;
 
-- 
2.43.0


From 976eba96948d69eaf2b027cff94345376721da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 09/37] fix: allocate memory blocks with the alignment they are
 freed with

MemoryBlock::convert_to_vec hands the block to Vec<u8>, which frees it with
alignment 1, while it was allocated with the alignment of usize.
---
 crates/vertigo/src/driver_module/js_value/memory_block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/js_value/memory_block.rs b/crates/vertigo/src/driver_module/js_value/memory_block.rs
index b933911..3e49f48 100644
--- a/crates/vertigo/src/driver_module/js_value/memory_block.rs
+++ b/crates/vertigo/src/driver_module/js_value/memory_block.rs
@@ -4,7 +4,8 @@ use std::mem;
 use super::memory_block_write::MemoryBlockWrite;
 
 fn alloc_memory(size: usize) -> (*mut u8, Layout) {
-    let align = mem::align_of::<usize>();
+    // the block may be turned into (and freed as) a Vec<u8>
+    let align = mem::align_of::<u8>();
 
     if let Ok(layout) = Layout::from_size_align(size, align) {
         unsafe {
-- 
2.43.0


From bbec35f78f9407950232636181858102170b1ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 10/37] fix: equal JSON objects have equal hashes

Hash for JsJson fed the entries of an object to the hasher in the iteration
order of the HashMap, which differs between equal maps.
---
 .../vertigo/src/driver_module/js_value/js_json_struct.rs   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 745e643..e5ea1b5 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -113,7 +113,12 @@ impl Hash for JsJson {
             }
             Self::Object(map) => {
                 state.write_u8(JsJsonConst::Object.into());
-                for (name, value) in map {
+
+                // equal objects may iterate in different orders
+                let mut entries = map.iter().collect::<Vec<_>>();
+                entries.sort_by(|(name1, _), (name2, _)| name1.cmp(name2));
+
+                for (name, value) in entries {
                     name.hash(state);
                     value.hash(state);
                 }
-- 
2.43.0


From 9757790ad72fa184048e8652c44c16eef48103e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 11/37] fix: DomElementRef::dom_access reaches its element

The element id was sent as a 64 bit value (a BigInt in JavaScript), while
JsNode.nextRoot accepts only 32 bit numbers, so every access through an
element reference failed with 'JsNode.nextRoot: wrong parameter'.
---
 crates/vertigo/src/driver_module/api/api_dom_access.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/api/api_dom_access.rs b/crates/vertigo/src/driver_module/api/api_dom_access.rs
index 8402509..ae69754 100644
--- a/crates/vertigo/src/driver_module/api/api_dom_access.rs
+++ b/crates/vertigo/src/driver_module/api/api_dom_access.rs
@@ -34,7 +34,8 @@ impl DomAccess {
     pub fn element(mut self, dom_id: DomId) -> Self {
         self.builder.push(JsValue::List(vec![
             JsValue::str("root"),
-            JsValue::U64(dom_id.to_u64()),
+            // the JavaScript side looks nodes up by Number, not by BigInt
+            JsValue::U32(dom_id.to_u64() as u32),
         ]));
 
         self
-- 
2.43.0


From 0dab406f77002a9b44012ee98bb8fb03297e3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 12/37] fix: server-side rendering panicked when an attribute
 was removed

---
 crates/vertigo-cli/src/serve/html/dom_command.rs |  6 ++++++
 crates/vertigo-cli/src/serve/html/element.rs     | 11 +++++++++++
 crates/vertigo-cli/src/serve/html/ordered_map.rs |  5 +++++
 3 files changed, 22 insertions(+)

diff --git a/crates/vertigo-cli/src/serve/html/dom_command.rs b/crates/vertigo-cli/src/serve/html/dom_command.rs
index 344bf43..c0dd597 100644
--- a/crates/vertigo-cli/src/serve/html/dom_command.rs
+++ b/crates/vertigo-cli/src/serve/html/dom_command.rs
@@ -16,6 +16,8 @@ pub enum DomCommand {
         name: String,
         value: String,
     },
+    #[serde(rename = "remove_attr")]
+    RemoveAttr { id: u64, name: String },
     #[serde(rename = "remove_node")]
     RemoveNode { id: u64 },
     #[serde(rename = "remove_text")]
@@ -68,6 +70,10 @@ impl JsJsonDeserialize for DomCommand {
                 name: json.get_property(&context, "name")?,
                 value: json.get_property(&context, "value")?,
             },
+            "remove_attr" => Self::RemoveAttr {
+                id: json.get_property(&context, "id")?,
+                name: json.get_property(&context, "name")?,
+            },
             "remove_node" => Self::RemoveNode {
                 id: json.get_property(&context, "id")?,
             },
diff --git a/crates/vertigo-cli/src/serve/html/element.rs b/crates/vertigo-cli/src/serve/html/element.rs
index dbb50f1..6d3c35a 100644
--- a/crates/vertigo-cli/src/serve/html/element.rs
+++ b/crates/vertigo-cli/src/serve/html/element.rs
@@ -67,6 +67,14 @@ impl AllElements {
         element.attr.set(name, value);
     }
 
+    fn remove_attr(&mut self, id: u64, name: &str) {
+        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
+            unreachable!();
+        };
+
+        element.attr.remove(name);
+    }
+
     fn remove_from_parent(&mut self, child_id: u64) {
         let Some(parent_id) = self.parent.get(&child_id) else {
             return;
@@ -130,6 +138,9 @@ impl AllElements {
                 DomCommand::SetAttr { id, name, value } => {
                     self.set_attr(id, name, value);
                 }
+                DomCommand::RemoveAttr { id, name } => {
+                    self.remove_attr(id, &name);
+                }
                 DomCommand::RemoveNode { id } => {
                     self.remove(id);
                 }
diff --git a/crates/vertigo-cli/src/serve/html/ordered_map.rs b/crates/vertigo-cli/src/serve/html/ordered_map.rs
index 21f3e63..1a766f5 100644
--- a/crates/vertigo-cli/src/serve/html/ordered_map.rs
+++ b/crates/vertigo-cli/src/serve/html/ordered_map.rs
@@ -36,6 +36,11 @@ impl OrderedMap {
         }
     }
 
+    pub fn remove(&mut self, name: &str) {
+        self.data.remove(name);
+        self.order.retain(|item_name| item_name != name);
+    }
+
     pub fn get_iter(&self) -> Vec<(String, String)> {
         let mut result = Vec::new();
 
-- 
2.43.0


From c8354a79edab431981e7040d1f596c2fa984ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 13/37] fix: server-side requests panicked on NaN in a JSON
 body and sent integers as floats

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 2a54bb1..7d39d7e 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -56,7 +56,16 @@ fn convert_to_jsvalue(value: JsJson) -> Value {
         JsJson::True => Value::Bool(true),
         JsJson::False => Value::Bool(false),
         JsJson::Null => Value::Null,
-        JsJson::Number(value) => Value::Number(Number::from_f64(value).unwrap()),
+        JsJson::Number(value) => {
+            // the same text as JSON.stringify gives in the browser
+            let integer = value as i64;
+
+            if integer as f64 == value && value.abs() < 1e15 {
+                Value::Number(integer.into())
+            } else {
+                Number::from_f64(value).map_or(Value::Null, Value::Number)
+            }
+        }
         JsJson::String(value) => Value::String(value),
         JsJson::List(list) => {
             let list = list.into_iter().map(convert_to_jsvalue).collect::<Vec<_>>();
-- 
2.43.0


From 38dca029038d8ca6eef598d3a0fa7d3705df9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 14/37] fix: server-side requests panicked on methods other
 than GET and POST

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 7d39d7e..0768388 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -1,4 +1,4 @@
-use reqwest::Response;
+use reqwest::{Method, Response};
 use serde_json::{Map, Number, Value};
 use std::{
     collections::{HashMap, VecDeque},
@@ -187,14 +187,15 @@ fn get_response_type(response: &Response) -> ResponseType {
 async fn send_request_inner(request_params: Arc<FetchRequest>) -> Option<(u32, RequestBody)> {
     let client = reqwest::Client::new();
 
-    let mut request = match request_params.method.trim().to_lowercase().as_str() {
-        "get" => client.get(&request_params.url),
-        "post" => client.post(&request_params.url),
-        _ => {
-            unreachable!();
-        }
+    let method = request_params.method.trim().to_uppercase();
+
+    let Ok(method) = Method::from_bytes(method.as_bytes()) else {
+        log::error!("Incorrect method: {method}");
+        return None;
     };
 
+    let mut request = client.request(method, &request_params.url);
+
     let headers = clear_headers(&request_params.headers);
     let (headers, body) = get_headers_and_body(headers, &request_params.body);
 
-- 
2.43.0


From 72c530ac7c47c45c2f4a7a6ae1781cdca3832a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 15/37] fix: equal server-side requests could hash differently
 and be sent twice

---
 crates/vertigo-cli/src/serve/wasm/message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/message.rs b/crates/vertigo-cli/src/serve/wasm/message.rs
index 38425d9..75df166 100644
--- a/crates/vertigo-cli/src/serve/wasm/message.rs
+++ b/crates/vertigo-cli/src/serve/wasm/message.rs
@@ -42,7 +42,12 @@ impl Hash for FetchRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.method.hash(state);
         self.url.hash(state);
-        for (key, value) in self.headers.iter() {
+
+        // equal maps may iterate in different orders
+        let mut headers = self.headers.iter().collect::<Vec<_>>();
+        headers.sort();
+
+        for (key, value) in headers {
             key.hash(state);
             value.hash(state);
         }
-- 
2.43.0


From 3e3ed1399e2ccba98c51604bdf5b016e91559692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 16/37] fix: a panic in the application dropped the connection
 instead of giving an error response

---
 .../src/serve/wasm/wasm_instance.rs           | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index f644adc..5c66744 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -14,6 +14,9 @@ use super::{
 pub struct WasmInstance {
     instance: Instance,
     store: Store<RequestState>,
+    sender: UnboundedSender<Message>,
+    // after a trap the instance is not entered again
+    trapped: bool,
 }
 
 impl WasmInstance {
@@ -40,6 +43,8 @@ impl WasmInstance {
         });
 
         let import_dom_access = {
+            let sender = sender.clone();
+
             Func::wrap(
                 &mut store,
                 move |caller: Caller<'_, RequestState>, ptr: u32, offset: u32| -> u32 {
@@ -143,40 +148,55 @@ impl WasmInstance {
         let imports = [import_panic_message.into(), import_dom_access.into()];
         let instance = Instance::new(&mut store, module, &imports).unwrap();
 
-        WasmInstance { instance, store }
+        WasmInstance {
+            instance,
+            store,
+            sender,
+            trapped: false,
+        }
     }
 
     fn call_function<Params: wasmtime::WasmParams, Results: wasmtime::WasmResults>(
         &mut self,
         name: &'static str,
         params: Params,
-    ) -> Result<Results, String> {
+    ) -> Option<Results> {
         let vertigo_entry_function = {
             self.instance
                 .get_typed_func::<Params, Results>(&mut self.store, name)
                 .unwrap()
         };
 
-        vertigo_entry_function
-            .call(&mut self.store, params)
-            .map_err(|error| format!("{error}"))
+        match vertigo_entry_function.call(&mut self.store, params) {
+            Ok(result) => Some(result),
+            Err(error) => {
+                self.trapped = true;
+
+                // goes after the message of the panic, if there is one
+                let _ = self.sender.send(Message::Panic(Some(format!("{error}"))));
+                None
+            }
+        }
     }
 
     pub fn call_vertigo_entry_function(&mut self) {
         self.call_function::<(u32, u32), ()>(
             "vertigo_entry_function",
             (super::VERTIGO_VERSION_MAJOR, super::VERTIGO_VERSION_MINOR),
-        )
-        .unwrap();
+        );
     }
 
     pub fn wasm_callback(&mut self, callback_id: u64, params: JsValue) -> JsValue {
+        if self.trapped {
+            return JsValue::Undefined;
+        }
+
         let mut data_context = DataContext::from_store(&mut self.store, self.instance);
         let params_ptr = data_context.save_value(params);
 
         let result = self
             .call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr))
-            .unwrap();
+            .unwrap_or(0);
 
         if result == 0 {
             JsValue::Undefined
-- 
2.43.0


From 31f30494ed2dfa7009823e24ec8c9e9cba8f1462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 17/37] fix: a request finished after the page was sent made
 its task panic

---
 crates/vertigo-cli/src/serve/html/html_response.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_response.rs b/crates/vertigo-cli/src/serve/html/html_response.rs
index 8f3f545..ae3ea55 100644
--- a/crates/vertigo-cli/src/serve/html/html_response.rs
+++ b/crates/vertigo-cli/src/serve/html/html_response.rs
@@ -170,9 +170,8 @@ impl HtmlResponse {
                         async move {
                             let response = send_request(request.clone()).await;
 
-                            sender
-                                .send(Message::FetchResponse { request, response })
-                                .unwrap();
+                            // the page may have been sent already, after the timeout
+                            let _ = sender.send(Message::FetchResponse { request, response });
                         }
                     });
 
-- 
2.43.0


From 29498fb733678594884f4dff80e3b6d293b3795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 18/37] fix: the content of a style or script element could
 close it in a server-side rendered page

---
 .../src/serve/html/html_element.rs            | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index 4e6aa22..4360989 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -127,6 +127,22 @@ fn get_render_child_mode(element: VecDeque<HtmlNode>) -> ChildMode {
     ChildMode::Child(result)
 }
 
+// The content is not escaped, so it must not contain the closing tag.
+fn encode_raw_text(text: String, name: &str) -> String {
+    let closing = format!("</{name}");
+    let mut result = String::with_capacity(text.len());
+    let mut rest = text.as_str();
+
+    while let Some(index) = rest.to_ascii_lowercase().find(&closing) {
+        result.push_str(&rest[..index]);
+        result.push_str("<\\/");
+        rest = &rest[index + 2..];
+    }
+
+    result.push_str(rest);
+    result
+}
+
 fn is_self_closing(element: &HtmlElement) -> bool {
     let tags = [
         "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param",
@@ -170,9 +186,10 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                     result.push(line.concat());
                 }
                 ChildMode::Text(text) => {
+                    let name = element.name.to_lowercase();
                     let escaped_text =
-                        if ["script", "style"].contains(&element.name.to_lowercase().as_str()) {
-                            Cow::from(text)
+                        if ["script", "style"].contains(&name.as_str()) {
+                            Cow::from(encode_raw_text(text, &name))
                         } else {
                             encode_safe(&text)
                         };
-- 
2.43.0


From c1ed4af307d5e28a6718ebdbe89a0b552057a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 19/37] fix: --port-watch did not change the port the events
 are served on

---
 crates/vertigo-cli/src/watch/watch_run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index b0a7d48..69e5a3a 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -100,6 +100,8 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
     let (tx, rx) = tokio::sync::watch::channel(Status::default());
     let tx = Arc::new(tx);
 
+    let address = format!("127.0.0.1:{}", opts.port_watch);
+
     tokio::spawn({
         let cors_middleware = Cors::new()
             .allow_methods(vec![Method::GET, Method::POST])
@@ -111,7 +113,7 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
             .data(rx);
 
         async move {
-            Server::new(TcpListener::bind("127.0.0.1:5555"))
+            Server::new(TcpListener::bind(address))
                 .run(app)
                 .await
         }
-- 
2.43.0


From 13632ea0df40d29f34b86936208e7a7837f3aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 20/37] fix: a proxied POST request kept the length of the body
 before it was written anew

---
 crates/vertigo-cli/src/serve/serve_run.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index ad0ea66..28e4d3a 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -108,9 +108,13 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
     response
 }
 
-async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> Response<BoxBody> {
+async fn post_response(target_url: String, mut headers: HeaderMap, body: Value) -> Response<BoxBody> {
     let client = reqwest::Client::new();
     let body = serde_json::to_vec(&body).unwrap();
+
+    // the body has been written anew, its length may have changed
+    headers.remove(header::CONTENT_LENGTH);
+
     let response = match client
         .post(target_url.clone())
         .headers(headers)
-- 
2.43.0


From 69cba5a127fac1f4bded5612946fcee96d11cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 21/37] fix: a chunked response could not be proxied

---
 crates/vertigo-cli/src/serve/serve_run.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index 28e4d3a..5287d0b 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -85,7 +85,9 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
         }
     };
 
-    let headers = response.headers().clone();
+    let mut headers = response.headers().clone();
+    // the body is sent at once, with its length
+    headers.remove(header::TRANSFER_ENCODING);
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
@@ -133,7 +135,9 @@ async fn post_response(target_url: String, mut headers: HeaderMap, body: Value)
         }
     };
 
-    let headers = response.headers().clone();
+    let mut headers = response.headers().clone();
+    // the body is sent at once, with its length
+    headers.remove(header::TRANSFER_ENCODING);
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
-- 
2.43.0


From cd98fd541ed67b0711796bb2718b59291e06e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 22/37] fix: an index.json that cannot be parsed made serving
 panic

---
 crates/vertigo-cli/src/serve/mount_path.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/mount_path.rs b/crates/vertigo-cli/src/serve/mount_path.rs
index 710c55c..8b0d0f7 100644
--- a/crates/vertigo-cli/src/serve/mount_path.rs
+++ b/crates/vertigo-cli/src/serve/mount_path.rs
@@ -56,8 +56,13 @@ fn read_index(dest_dir: &str) -> Result<IndexModel, i32> {
         }
     };
 
-    let model = serde_json::from_str::<IndexModel>(&index_html).unwrap();
-    Ok(model)
+    match serde_json::from_str::<IndexModel>(&index_html) {
+        Ok(model) => Ok(model),
+        Err(err) => {
+            log::error!("File parse error: file={index_path:?}, error={err}");
+            Err(-1)
+        }
+    }
 }
 
 fn replace_prefix(public_path: &str, dest_dir: &str, path: &str) -> Result<String, i32> {
-- 
2.43.0


From a6aed55816197502c505c56d4e70e3368dbebd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 23/37] fix: a build looked for its output in ./target whatever
 the target directory is

---
 crates/vertigo-cli/src/build/build_run.rs   |  4 ++--
 crates/vertigo-cli/src/build/find_target.rs | 16 +++++++---------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/vertigo-cli/src/build/build_run.rs b/crates/vertigo-cli/src/build/build_run.rs
index 33346d0..6af0ef1 100644
--- a/crates/vertigo-cli/src/build/build_run.rs
+++ b/crates/vertigo-cli/src/build/build_run.rs
@@ -47,7 +47,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Delete rlibs to re-generate static files
 
-    find_package_rlib_in_target(&package_name).remove_file();
+    find_package_rlib_in_target(&package_name, ws).remove_file();
 
     // Run build
 
@@ -80,7 +80,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Copy .wasm to destination
 
-    let wasm_path_target = find_wasm_in_target(&package_name);
+    let wasm_path_target = find_wasm_in_target(&package_name, ws);
     let wasm_path = opts.new_path_in_static_from(&wasm_path_target);
 
     // Optimize .wasm
diff --git a/crates/vertigo-cli/src/build/find_target.rs b/crates/vertigo-cli/src/build/find_target.rs
index 49a2cb4..e500f05 100644
--- a/crates/vertigo-cli/src/build/find_target.rs
+++ b/crates/vertigo-cli/src/build/find_target.rs
@@ -1,19 +1,17 @@
-use std::path::PathBuf;
+use super::{wasm_path::WasmPath, Workspace};
 
-use super::wasm_path::WasmPath;
-
-pub fn find_wasm_in_target(package_name: &str) -> WasmPath {
+pub fn find_wasm_in_target(package_name: &str, ws: &Workspace) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/{wasm_file_name}.wasm"
+    let path = ws.get_target_dir().join(format!(
+        "wasm32-unknown-unknown/release/{wasm_file_name}.wasm"
     ));
     WasmPath::new(path)
 }
 
-pub fn find_package_rlib_in_target(package_name: &str) -> WasmPath {
+pub fn find_package_rlib_in_target(package_name: &str, ws: &Workspace) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/deps/lib{wasm_file_name}.rlib"
+    let path = ws.get_target_dir().join(format!(
+        "wasm32-unknown-unknown/release/deps/lib{wasm_file_name}.rlib"
     ));
     WasmPath::new(path)
 }
-- 
2.43.0


From 5f93b7315592e9c1f1fab495f7979d68cba3734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 24/37] fix: css! with expressions only inside unquoted values
 left them unreplaced

---
 crates/vertigo-macro/src/css_parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 1366cdf..966ff36 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -12,6 +12,8 @@ pub struct CssParser {
     call_site: Span,
     children: Vec<String>,
     params: ParamsEnumerator,
+    /// Set if an unquoted value has expressions in it, they are left in place for `format!`
+    has_inline_params: bool,
     /// Css objects references inside rules (to be replaced with auto-class-names)
     css_refs: Vec<Ident>,
 }
@@ -22,6 +24,7 @@ impl CssParser {
             call_site,
             children: Vec::new(),
             params: ParamsEnumerator::default(),
+            has_inline_params: false,
             css_refs: Vec::new(),
         }
     }
@@ -40,7 +43,7 @@ impl CssParser {
 
                 let params = parser.params.into_hashmap();
 
-                if params.is_empty() {
+                if params.is_empty() && !parser.has_inline_params {
                     let css_output = css_output.replace("{{", "{").replace("}}", "}");
                     (quote! { #css_output }, false, parser.css_refs)
                 } else {
@@ -115,7 +118,10 @@ impl CssParser {
         for value in pairs {
             let value_str = match value.as_rule() {
                 Rule::color_value => value.as_str().to_string(),
-                Rule::unquoted_value => value.as_str().to_string(),
+                Rule::unquoted_value => {
+                    self.has_inline_params |= value.as_str().contains('{');
+                    value.as_str().to_string()
+                }
                 Rule::quoted_value => value.as_str().to_string(),
                 Rule::expression => self
                     .params
-- 
2.43.0


From 3ab7bb6f598c1ae9cd9a984b0fb84ab72c9473d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:23 +0000
Subject: [PATCH 25/37] fix: get_props gave numbers as objects describing them

---
 crates/vertigo/src/driver_module/src_js/js_node.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/js_node.ts b/crates/vertigo/src/driver_module/src_js/js_node.ts
index 2a6e12d..36847d5 100644
--- a/crates/vertigo/src/driver_module/src_js/js_node.ts
+++ b/crates/vertigo/src/driver_module/src_js/js_node.ts
@@ -172,7 +172,7 @@ export class JsNode {
     }
 
     nextGetProps(path: Array<JsValueType>, args: Array<JsValueType>): JsNode | null {
-        const result: Record<string, JsValueType> = {};
+        const result: Record<string, unknown> = {};
 
         for (const property of args) {
             if (GuardJsValue.isString(property)) {
@@ -181,7 +181,7 @@ export class JsNode {
                     return null;
                 }
 
-                result[property] = value.toValue();
+                result[property] = value.wsk;
             } else {
                 console.error('JsNode.nextGetProps - wrong parameters', { path, args, property });
                 return null;
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 923f1a6..5181be2 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 2c9ad6b17de9b3334e4f95996cdefd0898d2fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:23 +0000
Subject: [PATCH 26/37] fix: a result that is no value threw through the wasm
 module

---
 crates/vertigo/src/driver_module/src_js/wasm_module.ts | 7 ++++++-
 crates/vertigo/src/driver_module/wasm_run.js           | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/wasm_module.ts b/crates/vertigo/src/driver_module/src_js/wasm_module.ts
index fc02975..257bfeb 100644
--- a/crates/vertigo/src/driver_module/src_js/wasm_module.ts
+++ b/crates/vertigo/src/driver_module/src_js/wasm_module.ts
@@ -71,7 +71,12 @@ export class WasmModule {
                             wsk = newWsk;
                         }
 
-                        return getWasm().valueSaveToBuffer(wsk.toValue());
+                        try {
+                            return getWasm().valueSaveToBuffer(wsk.toValue());
+                        } catch (error) {
+                            console.error('dom_access - a problem with result', { path, error });
+                            return 0;
+                        }
                     }
 
                     console.error('dom_access - wrong parameters', args);
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 5181be2..a291c35 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}try{return r().valueSaveToBuffer(t.toValue())}catch(o){return console.error("dom_access - a problem with result",{path:e,error:o}),0}}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 18f16a43c68cf3993b835fc808aada0c43b65bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:23 +0000
Subject: [PATCH 27/37] fix: a request with headers that are refused was never
 answered

---
 crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
index edac527..4605f1d 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
@@ -120,9 +120,9 @@ export class Fetch {
     ): Promise<void> => {
         const wasm = this.getWasm();
 
-        const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
-
         try {
+            const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
+
             const response = await fetch(url, {
                 method,
                 headers: fetchHeaders,
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index a291c35..e4d1a74 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}try{return r().valueSaveToBuffer(t.toValue())}catch(o){return console.error("dom_access - a problem with result",{path:e,error:o}),0}}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}try{return r().valueSaveToBuffer(t.toValue())}catch(o){return console.error("dom_access - a problem with result",{path:e,error:o}),0}}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From f8d515299961d7fe58d7aa449bdc396d2cf286c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 28/37] fix: cookies were set with a stray quote after
 samesite=strict, so it was ignored

---
 crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
index 49ed2e6..c3d305c 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
@@ -53,7 +53,7 @@ export class Cookies {
         d.setTime(d.getTime() + (Number(expires_in) * 1000));
         let expires = "expires="+ d.toUTCString();
 
-        document.cookie = `${cname}=${cvalueEncoded};${expires};path=/;samesite=strict"`;
+        document.cookie = `${cname}=${cvalueEncoded};${expires};path=/;samesite=strict`;
     }
 
     public set_json = (
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index e4d1a74..d7b3991 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}try{return r().valueSaveToBuffer(t.toValue())}catch(o){return console.error("dom_access - a problem with result",{path:e,error:o}),0}}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}try{return r().valueSaveToBuffer(t.toValue())}catch(o){return console.error("dom_access - a problem with result",{path:e,error:o}),0}}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 54c2b345093690a97016f74f07460e34172bc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 29/37] fix: a websocket left while it was connecting stayed
 open

---
 .../src_js/api_browser/websocket/connection.ts              | 6 ++++++
 crates/vertigo/src/driver_module/wasm_run.js                | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
index cd9b19e..76e80bc 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
@@ -156,6 +156,12 @@ export class SocketConnection {
                     continue;
                 }
 
+                if (!isConnect) {
+                    socket.close();
+                    console.info(log.formatLog('disconnect (3)'));
+                    return;
+                }
+
                 socketConnection = socket;
                 onMessage({
                     type: 'socket',
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index d7b3991..11d4588 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}try{return r().valueSaveToBuffer(t.toValue())}catch(o){return console.error("dom_access - a problem with result",{path:e,error:o}),0}}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(!o)return c.close(),void console.info(i.formatLog("disconnect (3)"));if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}try{return r().valueSaveToBuffer(t.toValue())}catch(o){return console.error("dom_access - a problem with result",{path:e,error:o}),0}}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From eb61e002212b0bd787c3284de63e2847a19a2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 30/37] fix: a media query without a colon, like `@media
 print`, panicked

---
 crates/vertigo/src/css/transform_css/splits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 7e00253..1b73d81 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -21,13 +21,10 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
 
     for (index, char) in css.char_indices() {
         if char == '{' {
-            if row_side == RowSideState::Right {
-                row_side = RowSideState::BracketsOpened(1);
-            } else if let RowSideState::BracketsOpened(counter) = &mut row_side {
+            if let RowSideState::BracketsOpened(counter) = &mut row_side {
                 *counter += 1;
             } else {
-                log::info!("css input: {css}");
-                panic!("unsupported use case at opening bracket");
+                row_side = RowSideState::BracketsOpened(1);
             }
         }
 
-- 
2.43.0


From 06eb26abec5d0dd3b14eadc32a84cb663eae0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 31/37] fix: css blocks with letters outside ASCII were cut
 short or panicked

---
 .../vertigo/src/css/transform_css/splits.rs   | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 1b73d81..76597c1 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -77,24 +77,9 @@ pub fn css_row_split_to_pair(row: &str) -> Option<(&str, String)> {
 }
 
 pub fn find_brackets(line: &str) -> Option<(&str, &str, &str)> {
-    let mut start: Option<usize> = None;
-    let mut end: Option<usize> = None;
-
-    let chars: Vec<char> = line.chars().collect();
-
-    for (index, char) in chars.iter().enumerate() {
-        if *char == '{' {
-            start = Some(index);
-            break;
-        }
-    }
-
-    for (index, char) in chars.iter().enumerate().rev() {
-        if *char == '}' {
-            end = Some(index);
-            break;
-        }
-    }
+    // Positions in bytes, the line is sliced with them
+    let start = line.find('{');
+    let end = line.rfind('}');
 
     if let (Some(start), Some(end)) = (start, end) {
         let start_word = &line[0..start];
-- 
2.43.0


From 2c5175471d8b3dfad72f53c123d8e37b1c1763e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 32/37] fix: css! took a variable named like one of its
 parameter keys for that parameter

---
 crates/vertigo-macro/src/css_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 966ff36..3c5fc87 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -285,7 +285,8 @@ impl ParamsEnumerator {
         let key = if let Some(key) = self.params.get(&param) {
             key.clone()
         } else {
-            let key = self.seq.next().unwrap();
+            // Expressions in unquoted values may name variables, the keys must not be taken for them
+            let key = format!("__css_{}", self.seq.next().unwrap());
             self.params.insert(param, key.clone());
             key
         };
-- 
2.43.0


From 669df09e20bf898610e31169d3dc65395829da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 33/37] fix: css! with expressions only inside a quoted url
 left them unreplaced

---
 crates/vertigo-macro/src/css_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 3c5fc87..b4cebce 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -137,6 +137,7 @@ impl CssParser {
                         },
                         _ => {
                             // quoted_value
+                            self.has_inline_params |= value.as_str().contains('{');
                             value.as_str().to_string()
                         }
                     }
-- 
2.43.0


From 54d090ad9de47aefb61be38903d0af4ed310d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 34/37] fix: css! put a space between an expression and the
 unit written after it

---
 crates/vertigo-macro/src/css_parser.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index b4cebce..3b3dfd8 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -113,9 +113,18 @@ impl CssParser {
         let rule_ident = pairs.next().unwrap();
 
         let ident_str = rule_ident.as_str();
-        let mut value_strs = Vec::new();
+        let mut output = String::new();
+        let mut prev_end = None;
 
         for value in pairs {
+            // Parts of a value are separated if they are separated in the source, so that an unit
+            // written right after an expression stays with it.
+            let span = value.as_span();
+            if prev_end.is_some_and(|end| end < span.start()) {
+                output.push(' ');
+            }
+            prev_end = Some(span.end());
+
             let value_str = match value.as_rule() {
                 Rule::color_value => value.as_str().to_string(),
                 Rule::unquoted_value => {
@@ -151,13 +160,10 @@ impl CssParser {
                     "".to_string()
                 }
             };
-            value_strs.push(value_str);
+            output.push_str(&value_str);
         }
 
-        format!(
-            "{ident_str}: {};",
-            value_strs.join(" ").replace("} px", "}px")
-        )
+        format!("{ident_str}: {};", output.replace("} px", "}px"))
     }
 
     fn generate_animation_rule(&mut self, pair: Pair<Rule>) -> String {
-- 
2.43.0


From 7ced93950a23c3e342d25f5612f0f061666eda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 35/37] fix: the default of a field of an enum variant was
 accepted but never used

---
 crates/vertigo-macro/src/jsjson/enums.rs   | 13 ++++++-----
 crates/vertigo-macro/src/jsjson/structs.rs | 26 +++++++++++++---------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/crates/vertigo-macro/src/jsjson/enums.rs b/crates/vertigo-macro/src/jsjson/enums.rs
index a006913..c9b44c7 100644
--- a/crates/vertigo-macro/src/jsjson/enums.rs
+++ b/crates/vertigo-macro/src/jsjson/enums.rs
@@ -142,13 +142,16 @@ pub(super) fn impl_js_json_enum(name: &Ident, data: &DataEnum) -> Result<TokenSt
                 });
 
                 // Decode
-                let field_decodes = field_idents
+                let field_decodes = fields
+                    .named
                     .iter()
-                    .map(|field_ident| {
+                    .filter_map(|field| {
+                        let field_ident = field.ident.as_ref()?;
                         let field_name = field_ident.unraw().to_string();
-                        quote! {
-                            #field_ident: value.get_property(&ctx, #field_name)?,
-                        }
+                        let unpack_expr = super::structs::get_unpack_expr(&field.attrs);
+                        Some(quote! {
+                            #field_ident: value.get_property(&ctx, #field_name)#unpack_expr,
+                        })
                     })
                     .collect::<Vec<_>>();
 
diff --git a/crates/vertigo-macro/src/jsjson/structs.rs b/crates/vertigo-macro/src/jsjson/structs.rs
index 08edbb4..84cbaa5 100644
--- a/crates/vertigo-macro/src/jsjson/structs.rs
+++ b/crates/vertigo-macro/src/jsjson/structs.rs
@@ -1,13 +1,27 @@
 use bae::FromAttributes;
 use proc_macro::TokenStream;
+use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
-use syn::{ext::IdentExt, DataStruct, Ident};
+use syn::{ext::IdentExt, Attribute, DataStruct, Ident};
 
 #[derive(Default, Debug, FromAttributes)]
 pub struct JsJson {
     default: Option<syn::Expr>,
 }
 
+/// What to do with the result of reading a field - use the default if one is declared, or return the error
+pub(super) fn get_unpack_expr(attrs: &[Attribute]) -> TokenStream2 {
+    let attrs = JsJson::try_from_attributes(attrs).unwrap().unwrap_or_default();
+
+    if let Some(default_expr) = attrs.default {
+        quote! {
+            .unwrap_or_else(|_| #default_expr)
+        }
+    } else {
+        quote! { ? }
+    }
+}
+
 pub(super) fn impl_js_json_struct(name: &Ident, data: &DataStruct) -> Result<TokenStream, String> {
     let mut field_list = Vec::new();
 
@@ -26,20 +40,12 @@ pub(super) fn impl_js_json_struct(name: &Ident, data: &DataStruct) -> Result<Tok
 
     for (field_name, attrs) in field_list {
         let field_unraw = field_name.unraw().to_string();
-        let attrs = JsJson::try_from_attributes(attrs).unwrap().unwrap_or_default();
+        let unpack_expr = get_unpack_expr(attrs);
 
         list_to_json.push(quote! {
             (#field_unraw.to_string(), self.#field_name.to_json()),
         });
 
-        let unpack_expr = if let Some(default_expr) = attrs.default {
-            quote! {
-                .unwrap_or_else(|_| #default_expr)
-            }
-        } else {
-            quote! { ? }
-        };
-
         list_from_json.push(quote! {
             #field_name: json.get_property(&context, #field_unraw)#unpack_expr,
         })
-- 
2.43.0


From 2edf69e02fb44ee706682d93cd44ce15aed54fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:21 +0000
Subject: [PATCH 36/37] fix: a css! reference to a style of several parts named
 them as if they were descendants

---
 crates/vertigo-macro/src/css_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 3b3dfd8..91a5996 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -325,7 +325,8 @@ pub(crate) fn generate_css_string(input: TokenStream) -> (TokenStream2, bool, To
                 #replacements
                 let css_output = css_output.replace(
                     &["[", #ref_str, "]"].concat(),
-                    &[".", &vertigo::get_driver().class_name_for(&#reference)].concat(),
+                    // A style of several parts has several classes, the selector has to name them all
+                    &[".", &vertigo::get_driver().class_name_for(&#reference).replace(' ', ".")].concat(),
                 );
             };
         }
-- 
2.43.0


From 032d9aa1b748472b9f6901de29daf41fc6e65a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:21 +0000
Subject: [PATCH 37/37] fix: include_static! could not compile where
 CARGO_TARGET_DIR is set

---
 crates/vertigo-macro/src/include_static.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/vertigo-macro/src/include_static.rs b/crates/vertigo-macro/src/include_static.rs
index 88e27aa..04f3694 100644
--- a/crates/vertigo-macro/src/include_static.rs
+++ b/crates/vertigo-macro/src/include_static.rs
@@ -40,15 +40,17 @@ fn bundle_file(mut file_path: PathBuf, file: String) -> Result<String, String> {
         let file_name = file_path.file_name();
         let file_static_target = {
             let mut target_path = WasmPath::new(PathBuf::from(
-                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| {
-                    format!(
-                        "target/{}/release",
-                        std::env::var("TARGET")
-                            .unwrap_or_else(|_| "wasm32-unknown-unknown".to_string())
-                    )
-                }),
+                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "target".to_string()),
             ));
-            target_path.push(&["static", "included", file_name.as_str()]);
+            let target =
+                std::env::var("TARGET").unwrap_or_else(|_| "wasm32-unknown-unknown".to_string());
+            target_path.push(&[
+                target.as_str(),
+                "release",
+                "static",
+                "included",
+                file_name.as_str(),
+            ]);
             target_path
         };
 
-- 
2.43.0

