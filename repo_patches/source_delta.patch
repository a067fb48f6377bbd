From 8413d965733dcbe990b7a4a160d8380cf6c972ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 01/15] fix: reject truncated integers and decode nine byte
 ones

An integer whose bytes stopped after a continuation bit was accepted with
a wrong value, and integers of exactly nine bytes (2^56..2^63) were read as
if a tenth byte followed.
---
 src/serialize/primitives.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 55a6816..abb696d 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -72,6 +72,7 @@ impl Deserializable for u64 {
     fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {
         let mut out = 0;
         let mut eaten = 0;
+        let mut complete = false;
 
         // We eat all the bytes that start with 1
         while input.is_empty() == false && eaten < 9 {
@@ -88,6 +89,7 @@ impl Deserializable for u64 {
             eaten += 1;
 
             if more_bytes == false {
+                complete = true;
                 break;
             }
 
@@ -97,14 +99,15 @@ impl Deserializable for u64 {
         }
 
         // This means there is one last byte with 1 bit of real data
-        if eaten == 9 {
+        if eaten == 9 && complete == false {
             out >>= 1;
             if *input.get(0)? == 1 {
                 out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
             }
             input = &input[1..];
             Some((input, out))
-        } else if eaten == 0 {
+        } else if complete == false {
+            // The input ended before the number did
             None
         } else {
             // We need to remove the extra padding from the beginning
-- 
2.43.0


From 126c958f98e84a160e97797c019c3c455a5003ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 02/15] fix: fail to decode a string longer than the input
 instead of panicking

---
 src/serialize/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 593cbf9..746cda0 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -121,7 +121,7 @@ fn test() {
 impl Deserializable for String {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (input, len) = usize::deserialize(input)?;
-        let bytes = &input[..len];
+        let bytes = input.get(..len)?;
         let string = String::from_utf8(bytes.to_vec()).ok()?;
         Some((&input[len..], string))
     }
-- 
2.43.0


From ce3af4ebbef1dc13d90c5c86974472708affbad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 03/15] fix: fail to decode an array of the wrong length
 instead of panicking

---
 src/serialize/collections.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 746cda0..b5e92aa 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -187,7 +187,9 @@ impl<T: Serializable, const N: usize> Serializable for [T; N] {
 impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
@@ -201,7 +203,9 @@ impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollectio
 impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
-- 
2.43.0


From 745077a987a699e15e67856de0a4c052c279bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 04/15] fix: never reserve more elements than there are bytes
 left to decode

A damaged length made the decoder reserve memory for that many elements,
which panics or aborts. Every element takes at least one byte.
---
 src/classic_indexes/categorical.rs | 4 ++--
 src/classic_indexes/tag.rs         | 2 +-
 src/data/vendor.rs                 | 4 ++--
 src/serialize/collections.rs       | 8 ++++----
 src/serialize/nodes.rs             | 2 +-
 src/serialize/sequential_array.rs  | 2 +-
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 2800703..7a77bb2 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -51,7 +51,7 @@ impl<'a> Category<'a> {
         let (input, name) = String::deserialize(input)?;
         let (mut input, options_len) = usize::deserialize(input)?;
 
-        let mut options = Vec::with_capacity(options_len);
+        let mut options = Vec::with_capacity(options_len.min(input.len()));
         for _ in 0..options_len {
             let (input_after_name, name) = String::deserialize(input)?;
 
@@ -162,7 +162,7 @@ impl<'a> CategoryIndex<'a> {
         products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], CategoryIndex<'a>)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut cats = Vec::with_capacity(len);
+        let mut cats = Vec::with_capacity(len.min(input.len()));
         let mut next_option_serialization_id = 0;
         for _ in 0..len {
             let (new_input, cat) =
diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index b1b5b14..24024bc 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -60,7 +60,7 @@ impl<'a> TagIndex<'a> {
     ) -> Option<(&'i [u8], TagIndex<'a>)> {
         let (input, tag_len) = usize::deserialize(input)?;
         let mut input = input;
-        let mut tags = Vec::with_capacity(tag_len);
+        let mut tags = Vec::with_capacity(tag_len.min(input.len()));
         for id in 0..tag_len {
             let (new_input, name) = String::deserialize(input)?;
 
diff --git a/src/data/vendor.rs b/src/data/vendor.rs
index f53ce78..84dcb87 100644
--- a/src/data/vendor.rs
+++ b/src/data/vendor.rs
@@ -97,8 +97,8 @@ impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'ar
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut tags = AHashMap::with_capacity(len);
-        let mut by_id = Vec::with_capacity(len);
+        let mut tags = AHashMap::with_capacity(len.min(input.len()));
+        let mut by_id = Vec::with_capacity(len.min(input.len()));
         for id in 0..len {
             let (new_input, name) = String::deserialize(input)?;
             input = new_input;
diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index b5e92aa..73e9383 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -38,7 +38,7 @@ impl Serializable for Vec<usize> {
 impl<T: Deserializable> Deserializable for Vec<T> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize(input)?;
             input = new_input;
@@ -59,7 +59,7 @@ impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'a
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize_arena(input, arena)?;
             input = new_input;
@@ -150,7 +150,7 @@ where
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize_arena(new_input, arena)?;
@@ -164,7 +164,7 @@ where
 impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize(new_input)?;
diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index adb7c99..77cb8f7 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -82,7 +82,7 @@ impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>,
         let (input, roots) = AHashMap::deserialize_arena(input, node_arena)?;
 
         let (mut input, data_len) = usize::deserialize(input)?;
-        let mut data = AHashMap::with_capacity(data_len);
+        let mut data = AHashMap::with_capacity(data_len.min(input.len()));
         for _ in 0..data_len {
             let (next_input, gram) = <[G; N]>::deserialize(input)?;
             let (next_input, products, _) =
diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 22643b3..3ca368a 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -28,7 +28,7 @@ where
 {
     let (mut input, len) = usize::deserialize(input)?;
 
-    let mut output = Vec::with_capacity(len);
+    let mut output = Vec::with_capacity(len.min(input.len()));
     let mut previous = None;
     for _ in 0..len {
         let (new_input, parsed) = T::deserialize(input)?;
-- 
2.43.0


From 1ff9378948987af7799ff08862a03fda4bf0d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 05/15] fix: fail to decode a sequential array whose sum
 overflows

---
 src/serialize/sequential_array.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 3ca368a..a6ac751 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -22,9 +22,34 @@ where
     }
 }
 
+pub trait CheckedAdd
+where
+    Self: Sized,
+{
+    fn checked_add(self, other: Self) -> Option<Self>;
+}
+
+impl CheckedAdd for usize {
+    fn checked_add(self, other: Self) -> Option<Self> {
+        usize::checked_add(self, other)
+    }
+}
+
+impl CheckedAdd for u64 {
+    fn checked_add(self, other: Self) -> Option<Self> {
+        u64::checked_add(self, other)
+    }
+}
+
+impl CheckedAdd for u32 {
+    fn checked_add(self, other: Self) -> Option<Self> {
+        u32::checked_add(self, other)
+    }
+}
+
 pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
 where
-    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
+    T: CheckedAdd + Ord + Serializable + Deserializable + Copy,
 {
     let (mut input, len) = usize::deserialize(input)?;
 
@@ -35,7 +60,7 @@ where
         input = new_input;
 
         let item = match previous {
-            Some(previous) => parsed + previous,
+            Some(previous) => parsed.checked_add(previous)?,
             None => parsed,
         };
 
-- 
2.43.0


From 7d641fbbd7917028e9191b7577d9330c1dba12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 06/15] fix: reject a catalogue whose sort orders do not cover
 its products

Searching it with such an order indexed out of bounds.
---
 src/classic_indexes/mod.rs   | 4 ++++
 src/classic_indexes/order.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/classic_indexes/mod.rs b/src/classic_indexes/mod.rs
index 1a62bcd..2f6301f 100644
--- a/src/classic_indexes/mod.rs
+++ b/src/classic_indexes/mod.rs
@@ -27,6 +27,10 @@ impl<'a> ClassicIndexes<'a> {
         let (input, categories) = CategoryIndex::deserialize_many(input, &data.products)?;
         let (input, tags) = TagIndex::deserialize(input, &data.products)?;
         let (input, order) = OrderIndex::deserialize(input)?;
+        // A search looks up the position of any product in an order
+        if order.is_for_amount(data.products.len()) == false {
+            return None;
+        }
         Some((
             input,
             ClassicIndexes {
diff --git a/src/classic_indexes/order.rs b/src/classic_indexes/order.rs
index 4aa1e50..89d069c 100644
--- a/src/classic_indexes/order.rs
+++ b/src/classic_indexes/order.rs
@@ -65,6 +65,11 @@ impl OrderIndex {
         self.orders.get(feature)
     }
 
+    /// If every order has a position for exactly this amount of products
+    pub fn is_for_amount(&self, products: usize) -> bool {
+        self.orders.values().all(|order| order.len() == products)
+    }
+
     pub fn options(&self) -> impl Iterator<Item = &str> {
         self.orders.keys().map(String::as_str)
     }
-- 
2.43.0


From fdb390bdb39ed3f93ac09961edf339767082b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 07/15] fix: limit how deep decoded n-gram nodes can nest

A damaged file could exhaust the stack.
---
 src/serialize/nodes.rs | 54 ++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index 77cb8f7..eccbd1d 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -27,6 +27,44 @@ impl<G: GramAtom> Serializable for &GramNode<'_, G> {
     }
 }
 
+// A tree is never deeper than the n-grams are long. Decoding is recursive, so a damaged file
+// must not be able to nest nodes without limit.
+const MAX_NODE_DEPTH: usize = 128;
+
+fn deserialize_node<'arena, 'input, G: GramAtom>(
+    input: &'input [u8],
+    arena: &'arena Arena<GramNode<'arena, G>>,
+    depth: usize,
+) -> Option<(&'input [u8], &'arena GramNode<'arena, G>)>
+where
+    'arena: 'input,
+{
+    if depth == MAX_NODE_DEPTH {
+        return None;
+    }
+    let (input, item) = <G as Deserializable>::deserialize(input)?;
+    let (input, weight) = f32::deserialize(input)?;
+    let (mut input, len) = usize::deserialize(input)?;
+    let mut by_occurances = Vec::with_capacity(len.min(input.len()));
+    for _ in 0..len {
+        let (new_input, child) = deserialize_node(input, arena, depth + 1)?;
+        input = new_input;
+        by_occurances.push(child);
+    }
+    let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
+        map.insert(item.item, *item);
+        map
+    });
+
+    let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
+        item,
+        weight,
+        by_occurances,
+        items,
+    });
+    Some((input, node))
+}
+
 impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena, G> {
     fn deserialize_arena<'input>(
         input: &'input [u8],
@@ -35,21 +73,7 @@ impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena,
     where
         'arena: 'input,
     {
-        let (input, item) = <G as Deserializable>::deserialize(input)?;
-        let (input, weight) = f32::deserialize(input)?;
-        let (input, by_occurances) = Vec::deserialize_arena(input, arena)?;
-        let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
-            map.insert(item.item, *item);
-            map
-        });
-
-        let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
-            item,
-            weight,
-            by_occurances,
-            items,
-        });
-        Some((input, node))
+        deserialize_node(input, arena, 0)
     }
 }
 
-- 
2.43.0


From 199ca42c81e19501883fe1d5bddb45928d51fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 08/15] fix: give equally likely results a fixed order

Their order came from the iteration order of a randomly seeded hash map, so
the same search gave different answers. Confidences that are not a number
(from a damaged file) made the comparison inconsistent, on which sorting may
panic.
---
 src/ngram/result_ranker.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ngram/result_ranker.rs b/src/ngram/result_ranker.rs
index 2eafed9..c32d573 100644
--- a/src/ngram/result_ranker.rs
+++ b/src/ngram/result_ranker.rs
@@ -30,7 +30,7 @@ pub struct ResultRanker<'a, H, Data: HashExtractable<Inner = H>> {
     confidence_for_data: AHashMap<&'a H, (&'a Data, f32)>,
 }
 
-impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Data> {
+impl<'a, H: Hash + Eq, Data: Ord + HashExtractable<Inner = H>> ResultRanker<'a, H, Data> {
     pub fn add<'b>(&'b mut self, data: &'a Data, confidence: f32)
     where
         'a: 'b,
@@ -44,10 +44,9 @@ impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Dat
 
     pub fn export_data_by_confidence(mut self) -> Vec<(&'a Data, f32)> {
         let mut all_data: Vec<_> = self.confidence_for_data.drain().map(|(_, v)| v).collect();
-        all_data.sort_by(|(_, a), (_, b)| {
-            a.partial_cmp(b)
-                .unwrap_or(std::cmp::Ordering::Equal)
-                .reverse()
+        // Equal confidences are ordered by the data, so the order does not depend on the hash map
+        all_data.sort_by(|(a_data, a), (b_data, b)| {
+            a.total_cmp(b).reverse().then_with(|| a_data.cmp(b_data))
         });
         all_data
     }
-- 
2.43.0


From 6a32841f1f078aa69864c7811c54b185f3191055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 09/15] fix: keep image urls with their products when some have
 no media

The products after one without media showed the next product's image.
---
 src/data/raw_parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f9a4f26..e924bf5 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -67,15 +67,14 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
             vendor,
             id,
             options,
-            mut media,
+            media,
             price,
         } = raw;
 
         let mut other_string = AHashMap::with_capacity(1);
 
-        if !media.is_empty() {
-            other_string.insert("image_url", media.swap_remove(0).url);
-        }
+        // Features are looked up by position, so every product needs a value
+        other_string.insert("image_url", media.get(0).map_or("", |item| item.url));
 
         let mut other_numeric = AHashMap::with_capacity(1);
 
-- 
2.43.0


From 60bd77961331a8ce5b339421549a4a3f824ef533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 10/15] fix: honour exact feature filters

The missing from and to of an exact filter are undefined rather than absent,
so it was taken for a range without bounds, which accepts everything.
---
 src/js_interactable/feature_filter.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/js_interactable/feature_filter.rs b/src/js_interactable/feature_filter.rs
index 707aa02..b368b84 100644
--- a/src/js_interactable/feature_filter.rs
+++ b/src/js_interactable/feature_filter.rs
@@ -41,11 +41,17 @@ impl FeatureFilter {
 
             if let Some(from) = get_value(&values, "from") {
                 if let Some(to) = get_value(&values, "to") {
-                    out.push(FeatureFilter {
-                        data: FilterData::Range { from, to },
-                        feature,
-                    });
-                    continue;
+                    // Properties that are missing are undefined
+                    let exact_only = from.is_undefined()
+                        && to.is_undefined()
+                        && get_value(&values, "exact").map_or(false, |v| !v.is_undefined());
+                    if exact_only == false {
+                        out.push(FeatureFilter {
+                            data: FilterData::Range { from, to },
+                            feature,
+                        });
+                        continue;
+                    }
                 }
             }
             let exact = get_value(&values, "exact")?;
-- 
2.43.0


From 371972bb6753a54bf573125e22e8ae381ab5db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 11/15] fix: return false from initialize for a file that is no
 catalogue

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a08707..92780cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,7 +49,10 @@ pub fn init_panic_hook() {
 pub fn initialize(input: &[u8]) -> bool {
     init_panic_hook();
 
-    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
+    let (index, classic) = match deserialize_all(input, &NODE_ARENA, &SUPER_ARENA) {
+        Some(v) => v,
+        None => return false,
+    };
 
     SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
     SHARED_CLASSIC_INDEX
-- 
2.43.0


From 5642de79fb63729fe1a63a184f59422a7998134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 12/15] fix: switch catalogues atomically

The two halves of a catalogue were replaced one after the other, so a search
could use the products of one catalogue with the sort orders of another,
which indexed out of bounds, poisoned both locks and disabled the engine.
---
 src/lib.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 92780cd..1c2b8b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,11 +54,11 @@ pub fn initialize(input: &[u8]) -> bool {
         None => return false,
     };
 
-    SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
-    SHARED_CLASSIC_INDEX
-        .lock()
-        .unwrap()
-        .replace(Arc::new(classic));
+    // Both are replaced under both locks, so nobody sees parts of two catalogues
+    let mut index_lock = SHARED_INDEX.lock().unwrap();
+    let mut classic_lock = SHARED_CLASSIC_INDEX.lock().unwrap();
+    index_lock.replace(Arc::new(index));
+    classic_lock.replace(Arc::new(classic));
 
     true
 }
@@ -73,8 +73,14 @@ pub fn search(
 ) -> Option<ProductProducer> {
     let filters = FeatureFilter::parse(feature_filter)?;
 
-    let lock = SHARED_INDEX.lock().ok()?;
-    let index = lock.as_ref()?.clone();
+    let (index, classic) = {
+        let index_lock = SHARED_INDEX.lock().ok()?;
+        let classic_lock = SHARED_CLASSIC_INDEX.lock().ok()?;
+        (
+            index_lock.as_ref()?.clone(),
+            classic_lock.as_ref()?.clone(),
+        )
+    };
 
     let results = index.search(input.chars().flat_map(char::to_lowercase));
     let mut filtered_results: Box<dyn Iterator<Item = &Product<'_>>> = Box::new(
@@ -93,8 +99,6 @@ pub fn search(
     let mut results: Vec<usize> = filtered_results.map(|p| p.serialization_id).collect();
 
     if let Some(order) = order {
-        let lock = SHARED_CLASSIC_INDEX.lock().ok()?;
-        let classic = lock.as_ref()?;
         let order = classic.order.get_orders(&order)?;
         results.sort_by_cached_key(|v| order[*v]);
     }
-- 
2.43.0


From 44adb99444b13728dd3373b83fd93c3ce5dd91b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 13/15] fix: never filter one catalogue by selections made on
 another

Selections are positions, so after a new catalogue was loaded old ones meant
other tags and options, or none at all, on which the search panicked.
---
 src/js_interactable/category_handler.rs | 15 ++++++++++++---
 src/js_interactable/tag_handler.rs      | 10 ++++++++--
 src/lib.rs                              |  5 +++++
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/js_interactable/category_handler.rs b/src/js_interactable/category_handler.rs
index 97aea28..a38315e 100644
--- a/src/js_interactable/category_handler.rs
+++ b/src/js_interactable/category_handler.rs
@@ -98,11 +98,20 @@ impl CategoryHandler {
         }
     }
 
+    /// If nothing is selected, or the selections were made on this catalogue
+    pub fn is_usable_with(&self, classic: &Arc<ClassicIndexes<'static>>) -> bool {
+        self.active.is_empty() || Arc::ptr_eq(&self.handle, classic)
+    }
+
     pub fn is_valid(&self, product: &Product<'_>) -> bool {
         for (category, option) in self.active.keys() {
-            let category = &self.handle.categories[*category];
-            let option = &category.options[*option];
-            if option.contains(product) == false {
+            // An item from another catalogue might not exist here
+            let option = self
+                .handle
+                .categories
+                .get(*category)
+                .and_then(|category| category.options.get(*option));
+            if option.map_or(false, |option| option.contains(product)) == false {
                 return false;
             }
         }
diff --git a/src/js_interactable/tag_handler.rs b/src/js_interactable/tag_handler.rs
index 2911bc4..63f5a99 100644
--- a/src/js_interactable/tag_handler.rs
+++ b/src/js_interactable/tag_handler.rs
@@ -94,10 +94,16 @@ impl TagHandler {
         }
     }
 
+    /// If nothing is selected, or the selections were made on this catalogue
+    pub fn is_usable_with(&self, classic: &Arc<ClassicIndexes<'static>>) -> bool {
+        self.active.is_empty() || Arc::ptr_eq(&self.handle, classic)
+    }
+
     pub fn is_valid(&self, product: &Product<'_>) -> bool {
         for id in self.active.keys() {
-            let tag = self.handle.tags.get(*id).unwrap();
-            if tag.contains(product) == false {
+            // A tag from another catalogue might not exist here
+            let tag = self.handle.tags.get(*id);
+            if tag.map_or(false, |tag| tag.contains(product)) == false {
                 return false;
             }
         }
diff --git a/src/lib.rs b/src/lib.rs
index 1c2b8b4..110a270 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,11 @@ pub fn search(
         )
     };
 
+    // Selections identify their items by position, which means nothing in another catalogue
+    if categories.is_usable_with(&classic) == false || tags.is_usable_with(&classic) == false {
+        return None;
+    }
+
     let results = index.search(input.chars().flat_map(char::to_lowercase));
     let mut filtered_results: Box<dyn Iterator<Item = &Product<'_>>> = Box::new(
         results
-- 
2.43.0


From e20f0649e095933758ea9ce5b2839eeff8f34a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 14/15] fix: never shorten a description to nothing

---
 src/serialize/collections.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 73e9383..aa17d57 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -94,7 +94,8 @@ fn limit_string_len(input: &str, max_len: usize) -> &str {
                 None => &input[0..offset],
             };
         }
-        if char == ' ' {
+        // A leading space is no place to cut, nothing would be left
+        if char == ' ' && offset > 0 {
             last_candidate = Some(offset);
         }
     }
-- 
2.43.0


From 0381a9b8a1c97e514c8d686dacd75639731e0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 15/15] fix: refuse documents with prices that are not numbers
 instead of panicking

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 110a270..42d4304 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -217,6 +217,14 @@ pub fn index_and_serialize_with_n<const N: usize>(
     products: Vec<RawProduct>,
     arena: &'static SuperAlloc,
 ) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
+    // The products are indexed and ordered by price, so every price has to be a number
+    for product in &products {
+        let price: f32 = product.price.min.amount.parse()?;
+        if price.is_nan() {
+            return Err("price is not a number".into());
+        }
+    }
+
     let (prods, classic_index) = optimize(products, arena);
 
     let iter = prods.products.iter().map(|p| {
-- 
2.43.0

