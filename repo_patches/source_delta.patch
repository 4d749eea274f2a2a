From ee0fcf435ed22cc873456a8e37194d0f9bc6d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 01/41] fix: keep child names that are already unique and never
 produce a taken one

Renaming matched names by prefix, so an already unique name was changed, an
unsorted sibling list could yield a duplicate, and empty, non-ASCII or
overly long numeric names panicked.
---
 node_tree_core/src/utils/functions.rs | 77 +++++----------------------
 1 file changed, 14 insertions(+), 63 deletions(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index bd4f4be..33a6f14 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -31,78 +31,29 @@ use crate::{ prelude::{ RID, NodeTreeBase, Node }, structs::node_base::NodeStatu
 /// Ensures that the name provided is unique relative to the list of other names.
 /// If it is not, then it will create a new unique name.
 pub fn ensure_unique_name(name: &str, relative_to: &[String]) -> String {
-    fn extract_numerical_suffix(s: &str) -> Option<usize> {
-        let mut numerics: String = String::new();
-        let mut ptr:      usize  = s.len() - 1;
-        
-        loop {
-            let char: char = s.get(ptr..(ptr + 1)).unwrap().chars().collect::<Vec<_>>()[0];
-            if !char.is_numeric() {
-                break;
-            }
-            numerics = char.to_string() + &numerics;
-            
-            if ptr == 0 {
-                break;
-            }
-            ptr -= 1;
-        }
-
-        if numerics.is_empty() {
-            return None;
-        }
-        Some(numerics.parse::<usize>().unwrap())
+    fn is_taken(name: &str, relative_to: &[String]) -> bool {
+        relative_to.iter().any(|taken| taken == name)
     }
 
-    // Special Case:
-    // If the 'relative_to' array is empty, then return the name.
-    if relative_to.is_empty() {
+    // A name that is already unique is kept as it is.
+    if !is_taken(name, relative_to) {
         return name.to_string();
     }
 
     // Strip the name bare of any numerical suffix.
-    let given_value:         Option<usize> = extract_numerical_suffix(name);
-    let name_without_suffix: String        = match given_value {
-        Some(number) => name.split_at(name.find(&format!("{}", number)).unwrap()).0.to_string(),
-        None         => name.to_string()
-    };
+    let name_without_suffix: &str = name.trim_end_matches(|c: char| c.is_ascii_digit());
     
-    // Search for any similar names that have the same beginning but different suffixes.
-    let mut similar_names: Vec<String> = Vec::new();
-    for set_name in relative_to {
-        let idx_found: Option<usize> = set_name.find(&name_without_suffix);
-        
-        if let Some(idx) = idx_found {
-            if idx != 0 {   // We do not include similar names when the pattern does not start at the beginning of the string.
-                continue;
-            }
-            similar_names.push(set_name.to_string());
+    // Give it the closest free numerical suffix to the one it currently has (counting upwards).
+    // If this name does not have a numerical suffix, then start from the lowest one.
+    let mut new_value: u128 = name[name_without_suffix.len()..].parse::<u64>().unwrap_or(0) as u128;
+    loop {
+        new_value += 1;
+
+        let new_name: String = format!("{}{}", name_without_suffix, new_value);
+        if !is_taken(&new_name, relative_to) {
+            return new_name;
         }
     }
-
-    if similar_names.is_empty() {
-        return name.to_string();
-    }
-
-    // Order all of the names with a numerical suffix.
-    // If this name does not have a numerical suffix, then give it the lowest possible numerical
-    // suffix.
-    // Otherwise, give it the closest numerical suffix to the one it currently has (counting
-    // upwards).
-    let mut new_value: usize      = given_value.unwrap_or(0);
-    let     values:    Vec<usize> = similar_names.iter().map(|n| extract_numerical_suffix(n).unwrap_or(0)).collect(); // If there are no numerical suffixes on similar names,
-    loop { // I dunno why I programmed this as a loop but I'll keep it this way until I figure out why I did so.
-        for value in values {
-            if new_value == value {
-                new_value += 1;
-                continue;
-            }
-        }
-        break;
-    }
-    
-    let new_suffix: String = format!("{}", new_value);
-    name_without_suffix.to_string() + &new_suffix
 }
 
 /// Takes in a NodeTree and prints out a graphical representation with a node as the origin.
-- 
2.43.0


From 80c8762c5abe5bc394caf605a93c544d8c6e9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 02/41] fix: do not count a node as its own sibling when
 renaming it

---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9e09045..beb3027 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -167,7 +167,7 @@ impl NodeBase {
     pub fn set_name(&mut self, name: &str) {
         if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
             let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
-            let     siblings:  &[String]    = &parent.children().iter().map(|a| a.name().to_string()).collect::<Vec<_>>();
+            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
 
             unsafe {
                 self.set_name_unchecked(&ensure_unique_name(name, siblings));
-- 
2.43.0


From 56d2d82ff5e2c450d986ce33b4012e32f42f6f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 03/41] fix: do not hand out a taken RID after
 RIDHolder::from_vec

---
 node_tree_core/src/structs/rid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 476b1d5..20e588e 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -50,7 +50,7 @@ impl <T> RIDHolder<T> {
 
     /// Creates a new RID holder from a vector, where each index of each item is its RID.
     pub fn from_vec(slice: Vec<T>) -> Self {
-        let highest: RID = (slice.len() - 1) as RID;
+        let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
             highest,
-- 
2.43.0


From d6641ee1ab384577899d44d2265fecadf27b8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 04/41] fix: TpDyn::is_of() asks the node it points to

---
 node_tree_core/src/structs/tree_pointer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 22cff30..f3551c6 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -385,10 +385,7 @@ impl <'a> TpDyn<'a> {
     /// Checks if the node this points to can be cast to a specific trait.
     #[inline]
     pub fn is_of<T: ?Sized + 'static>(&self) -> bool {
-        use std::mem;
-
-        let node: TpDyn = unsafe { mem::transmute(*self) };
-        <TpDyn as CastRef>::impls::<T>(&node)
+        self.try_get().to_option().map(|node| <dyn Node as CastRef>::impls::<T>(node)).unwrap_or(false)
     }
 
     /// Determines if this pointer references a specific type.
-- 
2.43.0


From 437bfa12a0bcdb4aace3fcd3b051ddc5b19267a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 05/41] fix: keep a NodePath absolute through to_string, and
 accept empty paths

to_string() dropped the leading slash, so saving and loading an absolute path
made it relative, and panicked on an empty path; from_str("") was absolute.
---
 node_tree_core/src/structs/node_path.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 62607c1..5e57388 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -147,12 +147,8 @@ impl NodePath {
     /// "node_a/node_b/node_c/target_node"
     /// ```
     pub fn from_str(str: &str) -> NodePath {
-        let mut path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
-        let     abs:  bool              = path.front().map(|f| f.is_empty_identifier()).unwrap_or(false);
-        
-        if abs {
-            path.pop_front();
-        }
+        let path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
+        let abs:  bool              = str.starts_with('/');
 
         let mut np: NodePath = NodePath {
             path,
@@ -164,11 +160,14 @@ impl NodePath {
 
     /// Converts the path to a string, consuming it.
     pub fn to_string(mut self) -> String {
-        let mut out: String = String::new();
+        let mut out: String = if self.abs { "/".to_string() } else { String::new() };
         while let Some(segment) = self.pop_front() {
-            out += &(segment.to_string() + "/");
+            out += &segment.to_string();
+            if !self.path.is_empty() {
+                out += "/";
+            }
         }
-        out.get(0..(out.len() - 1)).unwrap().to_string()
+        out
     }
 
     /// Adds a node to the back of the path.
-- 
2.43.0


From fceaa310a9ef0f56535db08df79506571747367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 06/41] fix: get_absolute_path() returns an absolute path

It returned a relative one, which resolves to nothing. The log format is unchanged.
---
 node_tree_core/src/structs/logger.rs    | 2 +-
 node_tree_core/src/structs/node_base.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index e4db6c3..cea7e0e 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -201,7 +201,7 @@ impl Logger {
         let node_tree: &NodeTreeBase = unsafe { &*node_tree };
         let system:    SystemCall    = {
             match node_tree.get_node_identity(calling) {
-                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
+                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string().trim_start_matches('/').to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
                 None                                 => unimplemented!()
             }
diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index beb3027..d53bf47 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -537,7 +537,7 @@ impl NodeBase {
     pub fn get_absolute_path(&self) -> NodePath {
         let mut path: String = String::new();
         self.get_absolute_path_tail(&mut path);
-        NodePath::from_str(&path)
+        NodePath::from_str(&("/".to_string() + &path))
     }
 
     /// The recursive tail for the `get_absolute_path` function.
-- 
2.43.0


From 65a7d9484b02852c3b2882586df4956804025f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 07/41] fix: load exported non-ASCII chars

---
 node_tree_core/src/traits/exportable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3349f65..65ac4d7 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -243,7 +243,7 @@ impl Exportable for char {
         match value {
             toml::Value::String(c) => {
                 let c: String = c.into_value();
-                if c.len() != 1 {
+                if c.chars().count() != 1 {
                     None
                 } else {
                     Some(c.chars().collect::<Vec<_>>()[0])
@@ -392,7 +392,7 @@ impl <V: Exportable> Exportable for HashMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
@@ -445,7 +445,7 @@ impl <V: Exportable> Exportable for BTreeMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
-- 
2.43.0


From c20512b745900276b4067511143eb228d8d4e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 08/41] fix: do not build exported arrays from zeroed memory

It is undefined behaviour for most element types, a String or a Vec among them.
---
 node_tree_core/src/traits/exportable.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 65ac4d7..8d844b6 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -528,11 +528,7 @@ impl <const N: usize, T: Exportable> Exportable for [T; N] {
                     return None;
                 }
 
-                let mut rtr_arr: [T; N] = unsafe { mem::zeroed() };
-                for (i, element) in arr.into_iter().enumerate() {
-                    rtr_arr[i] = T::from_value(element)?;
-                }
-                Some(rtr_arr)
+                arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?.try_into().ok()
             },
             _ => None
         }
-- 
2.43.0


From 7eab1208284c8fc601fc422155d78d433bde60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 09/41] fix: refuse an invalid Duration in a scene file instead
 of panicking

---
 node_tree_core/src/traits/exportable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 8d844b6..bcd353e 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -318,7 +318,7 @@ impl Exportable for time::Duration {
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        Some(time::Duration::from_secs_f64(value.as_float()?))
+        time::Duration::try_from_secs_f64(value.as_float()?).ok()
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From 4503cdb8eb1461d35240cc207138e604917741ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 10/41] fix: refuse out of range integers in a scene file
 instead of truncating them

---
 node_tree_core/src/traits/exportable.rs       | 12 +++----
 node_tree_core/src/traits/glam_exportables.rs | 36 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index bcd353e..c517cc7 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -120,7 +120,7 @@ impl Exportable for u8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u8),
+            toml::Value::Integer(i) => u8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -132,7 +132,7 @@ impl Exportable for u16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u16),
+            toml::Value::Integer(i) => u16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -144,7 +144,7 @@ impl Exportable for u32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u32),
+            toml::Value::Integer(i) => u32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -168,7 +168,7 @@ impl Exportable for i8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i8),
+            toml::Value::Integer(i) => i8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -180,7 +180,7 @@ impl Exportable for i16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i16),
+            toml::Value::Integer(i) => i16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -192,7 +192,7 @@ impl Exportable for i32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i32),
+            toml::Value::Integer(i) => i32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
diff --git a/node_tree_core/src/traits/glam_exportables.rs b/node_tree_core/src/traits/glam_exportables.rs
index 639f68f..d0fdda4 100644
--- a/node_tree_core/src/traits/glam_exportables.rs
+++ b/node_tree_core/src/traits/glam_exportables.rs
@@ -70,7 +70,7 @@ impl Exportable for g_u8::U8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec2(x.as_integer()? as u8, y.as_integer()? as u8));
+                        return Some(g_u8::u8vec2(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -87,7 +87,7 @@ impl Exportable for g_u8::U8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec3(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8));
+                        return Some(g_u8::u8vec3(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?, u8::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -104,7 +104,7 @@ impl Exportable for g_u8::U8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec4(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8, w.as_integer()? as u8));
+                        return Some(g_u8::u8vec4(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?, u8::try_from(z.as_integer()?).ok()?, u8::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -122,7 +122,7 @@ impl Exportable for g_u16::U16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec2(x.as_integer()? as u16, y.as_integer()? as u16));
+                        return Some(g_u16::u16vec2(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -139,7 +139,7 @@ impl Exportable for g_u16::U16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec3(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16));
+                        return Some(g_u16::u16vec3(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?, u16::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -156,7 +156,7 @@ impl Exportable for g_u16::U16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec4(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16, w.as_integer()? as u16));
+                        return Some(g_u16::u16vec4(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?, u16::try_from(z.as_integer()?).ok()?, u16::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -174,7 +174,7 @@ impl Exportable for g_u32::UVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec2(x.as_integer()? as u32, y.as_integer()? as u32));
+                        return Some(g_u32::uvec2(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -191,7 +191,7 @@ impl Exportable for g_u32::UVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec3(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32));
+                        return Some(g_u32::uvec3(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?, u32::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -208,7 +208,7 @@ impl Exportable for g_u32::UVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec4(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32, w.as_integer()? as u32));
+                        return Some(g_u32::uvec4(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?, u32::try_from(z.as_integer()?).ok()?, u32::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -278,7 +278,7 @@ impl Exportable for g_i8::I8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec2(x.as_integer()? as i8, y.as_integer()? as i8));
+                        return Some(g_i8::i8vec2(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -295,7 +295,7 @@ impl Exportable for g_i8::I8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec3(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8));
+                        return Some(g_i8::i8vec3(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?, i8::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -312,7 +312,7 @@ impl Exportable for g_i8::I8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec4(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8, w.as_integer()? as i8));
+                        return Some(g_i8::i8vec4(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?, i8::try_from(z.as_integer()?).ok()?, i8::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -330,7 +330,7 @@ impl Exportable for g_i16::I16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec2(x.as_integer()? as i16, y.as_integer()? as i16));
+                        return Some(g_i16::i16vec2(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -347,7 +347,7 @@ impl Exportable for g_i16::I16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec3(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16));
+                        return Some(g_i16::i16vec3(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?, i16::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -364,7 +364,7 @@ impl Exportable for g_i16::I16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec4(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16, w.as_integer()? as i16));
+                        return Some(g_i16::i16vec4(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?, i16::try_from(z.as_integer()?).ok()?, i16::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -382,7 +382,7 @@ impl Exportable for g_i32::IVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec2(x.as_integer()? as i32, y.as_integer()? as i32));
+                        return Some(g_i32::ivec2(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -399,7 +399,7 @@ impl Exportable for g_i32::IVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec3(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32));
+                        return Some(g_i32::ivec3(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?, i32::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -416,7 +416,7 @@ impl Exportable for g_i32::IVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec4(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32, w.as_integer()? as i32));
+                        return Some(g_i32::ivec4(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?, i32::try_from(z.as_integer()?).ok()?, i32::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
-- 
2.43.0


From 36f6655517ed9474a71fbff5260750bc4ebd1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 11/41] fix: load nodes whose names contain an underscore

---
 node_tree_core/src/structs/node_scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 869a6db..6a293cc 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -105,7 +105,7 @@ impl NodeScene {
                 }).collect();
 
             let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
-            let (name, local_rid): (&str, RID) = key.split_once('_')
+            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                 .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                 .ok_or("Failed to parse Node key".to_string())??;
             
-- 
2.43.0


From 8b4ac60e53bf1b03b316592ff7677b896cd09ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 12/41] fix: give every node of a saved scene its own local RID

Nodes in different branches shared RIDs, so nodes with the same name
overwrote each other in the file and children were loaded under the wrong
parent; a scene whose root had a stale RID could not be loaded.
---
 node_tree_core/src/structs/node_scene.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 6a293cc..97560bf 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -311,18 +311,17 @@ impl NodeScene {
         &self.children
     }
 
-    /// Updates the internal RIDs.
+    /// Updates the internal RIDs, starting with the given one for this scene's root.
+    /// Returns the last RID that was given out.
     #[inline]
-    pub fn update_internal(&self, mut counter: u64) {
+    pub fn update_internal(&self, mut counter: u64) -> u64 {
+        unsafe { (&mut *self.this).set_rid(counter) };
         for child in &self.children {
-
-            // Update the counter and set it as this child's rid
-            counter += 1;
-            unsafe { (&mut *child.this).set_rid(counter) };
-
-            // Recursively traverse the child's children
-            child.update_internal(counter);
+            
+            // Recursively traverse the child and its children.
+            counter = child.update_internal(counter + 1);
         }
+        counter
     }
 }
 
-- 
2.43.0


From 36864d9845125b55b110c5903713c2b2a6a7214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 13/41] fix: call loaded() on the root of a loaded scene, and
 keep its ownership flag

---
 node_tree_core/src/structs/node_scene.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 97560bf..5645ad8 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -171,7 +171,13 @@ impl NodeScene {
                         None => return Err("Child was declared ahead of parent in the .scn file".to_string())
                     }
                 },
-                None => node_scene = Some(NodeScene::new_dyn(node))
+                None => {
+                    let mut root_scene: NodeScene = NodeScene::new_dyn(node);
+                            root_scene.from_disk  = true;
+                            root_scene.is_owner   = is_owner;
+
+                    node_scene = Some(root_scene);
+                }
             }
         }
 
@@ -358,6 +364,12 @@ impl hash::Hash for NodeScene {
 
 impl Instanceable for NodeScene {
     fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
+        if self.from_disk {
+            let self_mut: &mut dyn Node = unsafe { &mut *self.this };
+            unsafe {
+                self_mut.mark_as_loaded();
+            }
+        }
         iterator(None, self.this, self.is_owner);
 
         // Recursive function to traverse the tree
@@ -385,12 +397,6 @@ impl Instanceable for NodeScene {
 
         // Start the traversal from the root.
         let self_this: *mut dyn Node = self.this;
-        if self.from_disk {
-            let self_mut:  &mut dyn Node = unsafe { &mut *self_this };
-            unsafe {
-                self_mut.mark_as_loaded();
-            }
-        }
         traverse(self, self_this, &mut iterator);
     }
 }
-- 
2.43.0


From 63739b5f4d1449da49eeb345c1424cb6807bd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 14/41] fix: take nodes out of the tree as a whole, and not
 while they may be running

free() called terminal() on the freed node once per node of its branch and
never on the nodes below it, and then kept using the memory of a node it had
dropped; remove_child() unregistered parents before their children's
terminal() ran. Hooks that freed or removed siblings, children or parents made
the frame panic or use freed nodes.
---
 node_tree_core/src/structs/node_base.rs      | 109 +++++++++++--------
 node_tree_core/src/structs/node_tree_base.rs |  50 ++++++---
 2 files changed, 99 insertions(+), 60 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index d53bf47..e2f76f3 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -33,7 +33,7 @@ use super::{
     logger::Log,
     node_path::{ PathSeg, NodePath },
     node_scene::NodeScene,
-    node_tree_base::{ NodeTreeBase, TerminationReason },
+    node_tree_base::TerminationReason,
     tree_pointer::{ TPError, Tp, TpDyn },
     tree_result::TreeResult,
     rid::RID
@@ -105,6 +105,7 @@ pub struct NodeBase {
     children: Vec<RID>,
     status:   Rc<Mutex<NodeStatus>>,
     loaded:   bool,
+    exiting:  bool,   // Whether `terminal()` has been called on the Node.
     depth:    usize   // How far the Node is within the tree.
 }
 
@@ -121,6 +122,7 @@ impl NodeBase {
             children: Vec::new(),
             status:   Rc::new(Mutex::new(NodeStatus::Normal)),
             loaded:   false,
+            exiting:  false,
             depth:    0
         }
     }
@@ -315,30 +317,15 @@ impl NodeBase {
             return false;
         }
 
-        let (
-            child_idx,
-            child_name,
-            connected
-        ): (usize, String, Vec<RID>) = unsafe {
-            child.map(|(idx, child)| (
-                    idx,
-                    child.name().to_string(),
-                    child.top_down(true)
-            )).unwrap_unchecked()
+        let (child_name, mut child): (String, TpDyn) = unsafe {
+            child.map(|(_, child)| (child.name().to_string(), child)).unwrap_unchecked()
         };
+        child.take_down(TerminationReason::RemovedAsChild);
 
-        self.children.remove(child_idx);
-        for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
-            let _is_root_child: bool          = idx == 0; // TODO: Use this to save children nodes!
-            let queued_node:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid).unwrap_unchecked();
-            
-            queued_node.terminal(TerminationReason::RemovedAsChild);
-            queued_node.disconnnect_parent();
-            queued_node.disconnnect_owner();
-            queued_node.disconnnect_tree();
-
-            self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
-        }}
+        // The hooks that just ran may have removed this node as well.
+        if self.tree.is_none() {
+            return true;
+        }
 
         self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
         true 
@@ -596,38 +583,66 @@ impl NodeBase {
             panic!("Cannot free a node that is not a part of a NodeTree! Instead, simply let the unbound Node drop out of scope or use drop()!");
         }
         
-        // Call the terminal function on this node,
-        // before removing it and all it's children nodes from the NodeTree.
-        for node in self.top_down(true) {
-            let is_self: bool              = node == self.rid;
-            let tree:    &mut NodeTreeBase = unsafe { self.tree_mut().unwrap_unchecked() };
-
-            unsafe {
-                tree.get_node_mut(self.rid).unwrap_unchecked().terminal(TerminationReason::Freed); // Has to be called externally!
-            }
+        let is_root: bool              = self.is_root();
+        let tree:    *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
+        self.take_down(TerminationReason::Freed);
 
-            // Remove the reference of this node from its parent if it has a parent.
-            if is_self {
-                if let Some(parent) = self.parent {
-                    unsafe {
-                        let rid:       RID           = self.rid;
-                        let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
-                        let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
+        // If this is the root node, terminate the NodeTree.
+        if is_root {
+            unsafe { &mut *tree }.terminate();
+        }
+    }
 
-                        parent.children.remove(child_idx);
-                    }
-                }
+    /// Calls `terminal()` on this node and on all of the nodes below it, and once all of them had a
+    /// chance to react disconnects them from the `NodeTree`.
+    ///
+    /// The nodes themselves are kept in memory by the `NodeTree` until the end of the frame, as any
+    /// of them could be what called for the removal.
+    fn take_down(&mut self, reason: TerminationReason) {
+        
+        // Any of these hooks may free or add nodes, so go on until none are left.
+        loop {
+            let pending: Vec<*mut dyn Node> = match self.tree() {
+                Some(tree) => self.top_down(true).into_iter()
+                    .filter_map(|rid| tree.get_node_mut_raw(rid))
+                    .filter(|&node| unsafe { !(&*node).exiting })
+                    .collect(),
+                None => return // A hook already brought this node down.
+            };
+            if pending.is_empty() {
+                break;
             }
 
-            unsafe {
-                tree.unregister_node(node);
+            for node in pending {
+                let node: &mut dyn Node = unsafe { &mut *node };
+                if node.mark_as_exiting() {
+                    node.terminal(reason); // Has to be called externally!
+                }
             }
         }
 
-        // If this is the root node, terminate the NodeTree.
-        if self.is_root() {
-            self.tree_mut().unwrap().terminate();
+        // Remove the reference of this node from its parent if it has a parent.
+        let rid:    RID               = self.rid;
+        let branch: Vec<RID>          = self.top_down(true);
+        let tree:   &mut dyn NodeTree = unsafe { &mut *self.tree.unwrap_unchecked() };
+        if let Some(parent) = self.parent.and_then(|parent| tree.get_node_mut(parent)) {
+            parent.children.retain(|&child| child != rid);
         }
+
+        for rid in branch { unsafe {
+            if let Some(mut node) = tree.unregister_node(rid) {
+                node.disconnnect_parent();
+                node.disconnnect_owner();
+                node.disconnnect_tree();
+                tree.drop_after_frame(node);
+            }
+        }}
+    }
+
+    /// Marks that this node has its `terminal()` function called.
+    /// Returns false if it has been called already.
+    pub(crate) fn mark_as_exiting(&mut self) -> bool {
+        !std::mem::replace(&mut self.exiting, true)
     }
 
     /// Saves this node and all of the nodes below it as a `NodeScene`, which can then be
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 8ee4017..7699a89 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -156,7 +156,8 @@ pub struct NodeTreeBase {
     identity:   HashMap<RID, NodeIdentity>,
     singletons: HashMap<String, RID>,
     status:     TreeStatus,
-    last_frame: Instant
+    last_frame: Instant,
+    removed:    Vec<*mut dyn Node>   // Nodes that have left the tree, and are dropped at the end of the frame.
 }
 
 impl NodeTreeBase {
@@ -177,7 +178,8 @@ impl NodeTreeBase {
             identity:   HashMap::new(),
             singletons: HashMap::new(),
             status:     TreeStatus::Process(TreeProcess::Running),
-            last_frame: Instant::now()
+            last_frame: Instant::now(),
+            removed:    Vec::new()
         };
         
         node_tree
@@ -267,7 +269,14 @@ impl NodeTreeBase {
         }
 
         // Process the node tree recursively.
-        self.process_tail(Self::ROOT_RID, delta, ProcessMode::Pausable);
+        if let Some(root) = self.get_node_mut_raw(Self::ROOT_RID) {
+            self.process_tail(root, delta, ProcessMode::Pausable);
+        }
+
+        // Drop the nodes that have left the tree, as none of their functions are running anymore.
+        for node in std::mem::take(&mut self.removed) {
+            drop(unsafe { Box::from_raw(node) });
+        }
 
         // Check the tree's status.
         match self.status {
@@ -279,17 +288,19 @@ impl NodeTreeBase {
     }
 
     /// Gets a reference to the Root node.
+    ///
+    /// # Panics
+    /// Panics if the root node has been freed.
     pub fn root(&self) -> &dyn Node {
-        unsafe {
-            &**self.nodes.retrieve(Self::ROOT_RID).unwrap_unchecked()
-        }
+        self.get_node(Self::ROOT_RID).expect("The root node has been freed")
     }
     
     /// Gets a mutable reference to the Root node.
+    ///
+    /// # Panics
+    /// Panics if the root node has been freed.
     pub fn root_mut(&mut self) -> &mut dyn Node {
-        unsafe {
-            &mut **self.nodes.modify(Self::ROOT_RID).unwrap_unchecked()
-        }
+        self.get_node_mut(Self::ROOT_RID).expect("The root node has been freed")
     }
 
     /// Gets a raw pointer to a node reference given an `RID`.
@@ -374,9 +385,9 @@ impl NodeTreeBase {
     }
 
     /// The recursive tail-end of the process function which traverses down the node tree.
-    fn process_tail(&mut self, node_rid: RID, delta: f32, inherited_process_mode: ProcessMode) {
+    fn process_tail(&mut self, node: *mut dyn Node, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-        let node:   &mut dyn Node = self.get_node_mut(node_rid).unwrap();
+        let node:   &mut dyn Node = unsafe { &mut *node };
         
         // Determine the process mode.
         let mut process_mode: ProcessMode = node.process_mode();
@@ -409,12 +420,20 @@ impl NodeTreeBase {
                 }
             }
             
-            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),
+            TreeStatus::Terminating => if node.mark_as_exiting() { node.terminal(TerminationReason::TreeExit) },
             TreeStatus::Terminated  => ()
         }
 
+        // The node may have just left the tree along with all of its children.
+        if node.is_stray() {
+            return;
+        }
+
         // Go through each of the children and process them, perpetuating the recursive cycle.
-        for child_node in node.children().into_iter().map(|c| c.rid()).collect::<Vec<_>>() {
+        for child_node in node.children().into_iter().filter_map(|c| self.get_node_mut_raw(c.rid())).collect::<Vec<_>>() {
+            if unsafe { &*child_node }.is_stray() {
+                continue; // A sibling has removed it in the meantime.
+            }
             self.process_tail(child_node, delta, process_mode);
             if self.status == TreeStatus::Terminated {
                 break;
@@ -422,6 +441,11 @@ impl NodeTreeBase {
         }
     }
 
+    /// Keeps a node that has left the tree in memory until the current frame has finished.
+    pub(crate) fn drop_after_frame(&mut self, node: Box<dyn Node>) {
+        self.removed.push(Box::into_raw(node));
+    }
+
     /// Registers the node to the tree and gives it a unique RID.
     /// This should not be used manually.
     ///
-- 
2.43.0


From 47dd0646cc75f8f24ac38a2715a8ee06e019ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 15/41] fix: run ready() once the whole added scene is in place

add_child() ran it on every node of a scene before its children existed, while
the tree's own start runs it from the leaves up; both used nodes that another
node's ready() had removed.
---
 node_tree_core/src/structs/node_base.rs      | 44 +++++++++++++-------
 node_tree_core/src/structs/node_tree_base.rs | 19 +++------
 2 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index e2f76f3..a430bb0 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -203,18 +203,25 @@ impl NodeBase {
     /// # Panics
     /// Panics if this Node is not connected to a `NodeTree`.
     pub fn add_child<I: Instanceable>(&mut self, child: I) {
+        let mut added: Vec<*mut dyn Node> = Vec::new();
         child.iterate(|parent, node, is_owner| {
             if let Some(parent) = parent {
                 unsafe {
                     let parent: &mut dyn Node = &mut *parent;
-                    parent.add_child_from_ptr(node, is_owner, false);
+                    parent.add_child_from_ptr(node, is_owner, true);
                 }
             } else {
                 unsafe {
-                    self.add_child_from_ptr(node, is_owner, false);
+                    self.add_child_from_ptr(node, is_owner, true);
                 }
             }
+            added.push(node);
         });
+
+        // Only run the `ready()` functions once the whole scene is in place, going backwards.
+        for node in added.into_iter().rev() {
+            unsafe { &mut *node }.make_ready();
+        }
     }
 
     /// Adds a child to the node via a passed in pointer, automatically renaming it if its
@@ -268,24 +275,33 @@ impl NodeBase {
         };
         self.children.push(child_rid);
         
+        // Print the debug information on the child to the console.
+        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
+        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        
         // Call the `ready()` function for the child as long as the call to ready() is not ignored
         // or circumvented..
         if !ignore_ready {
-            unsafe {
-                let child: &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(child_rid).unwrap_unchecked();
-                if child.has_just_loaded() {
-                    child.loaded();
-                    child.mark_as_final();
-                }
-                child.ready();
+            unsafe { &mut *child_ptr }.make_ready();
+        }
+        child_rid
+    }
 
+    /// Calls the `ready()` function of this node, preceded by `loaded()` if it was loaded from the disk.
+    /// This does nothing if a hook of another node has removed this node in the meantime.
+    pub(crate) fn make_ready(&mut self) {
+        let rid: RID = self.rid;
+        if let Some(node) = self.tree_mut().and_then(|tree| tree.get_node_mut(rid)) {
+            if node.has_just_loaded() {
+                node.loaded();
+                unsafe {
+                    node.mark_as_final();
+                }
+            }
+            if node.in_tree() {
+                node.ready();
             }
         }
-        
-        // Print the debug information on the child to the console.
-        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
-        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
-        child_rid
     }
 
     /// Removes a child but it does not destroy it, disconnecting from its parent.
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 7699a89..68abb7e 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -200,18 +200,15 @@ impl NodeTreeBase {
     /// It is undefined behaviour if the outer struct is not allocated on the heap.
     /// ...
     unsafe fn initialize<I: Instanceable>(&mut self, outer: *mut dyn NodeTree, scene: I) {
-        let mut initialization_history: Vec<RID> = Vec::new();
+        let mut initialization_history: Vec<*mut dyn Node> = Vec::new();
 
         // Go through each node that needs to be instanced in the scene.
         scene.iterate(|parent, node, is_owner| {
             if let Some(parent) = parent {
                 let parent: &mut dyn Node = unsafe { &mut *parent };
-                let rid:    RID           = unsafe { parent.add_child_from_ptr(node, is_owner, true) };
-
-                initialization_history.push(rid);
+                unsafe { parent.add_child_from_ptr(node, is_owner, true) };
             } else {
                 self.identity.insert(Self::ROOT_RID, NodeIdentity::NodePath);
-                initialization_history.push(Self::ROOT_RID);
 
                 // Since this is the root node, it's 'owner' will be itself.
                 // It will also have no parent.
@@ -230,18 +227,12 @@ impl NodeTreeBase {
                     )));
                 self.nodes.push(node);
             }
+            initialization_history.push(node);
         });
 
         // Go through the initialization history backwards and run each node's `ready()` function.
-        for rid in initialization_history.into_iter().rev() {
-            let node: &mut dyn Node = unsafe { self.get_node_mut(rid).unwrap_unchecked() };
-            if node.has_just_loaded() {
-                node.loaded();
-                unsafe {
-                    node.mark_as_final();
-                }
-            }
-            node.ready();
+        for node in initialization_history.into_iter().rev() {
+            unsafe { &mut *node }.make_ready();
         }
     }
 
-- 
2.43.0


From 645a03b4f24424bd6dac24b3e13c57bdc65888e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 16/41] fix: let signal listeners use the signal that is being
 emitted

Emitting, connecting or disconnecting from within a listener deadlocked, and
a listener that panicked poisoned the signal.
---
 node_tree_core/src/structs/signals.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index 17e5f42..0762b6b 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -128,23 +128,24 @@ impl <T> Signal<T> {
     
     /// Emits the signal, calling all connected hooks.
     pub fn emit<E: Element<T>>(&self, parameters: E) {
-        let mut hooks:           MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
-        let mut removed_signals: Vec<RID>                    = Vec::with_capacity(hooks.len());
-        let     parameters:      &T                          = parameters.as_inner();
+        let connections: Vec<RID> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();
+        let parameters:  &T       = parameters.as_inner();
+
+        for rid in connections {
+            
+            // The hooks are not to be locked while one of them runs, as it may use this signal too.
+            let hook: *mut dyn FnMut(&T) = {
+                let mut hooks: MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
+                match hooks.retrieve(rid).copied() {
+                    Some((hook, ConnectionType::UntilDisconnected)) => hook,
+                    Some((hook, ConnectionType::Once))              => { hooks.take(rid); hook },
+                    None                                            => continue // Disconnected by a prior hook.
+                }
+            };
 
-        for (&rid, &(hook, mode)) in hooks.iter_enumerated() {
             unsafe {
                 (*hook)(parameters);
             }
-
-            match mode {
-                ConnectionType::UntilDisconnected => (),
-                ConnectionType::Once              => removed_signals.push(rid)
-            }
-        }
-
-        for idx in removed_signals.into_iter().rev() {
-            hooks.take(idx);
         }
     }
 
-- 
2.43.0


From 312c577ee056178bcf1cd1d74be30709b8ce5cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 17/41] fix: forget every name of a singleton that leaves the
 tree

---
 node_tree_core/src/structs/node_tree_base.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 68abb7e..a8605d9 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -458,16 +458,7 @@ impl NodeTreeBase {
     pub unsafe fn unregister_node(&mut self, rid: RID) -> Option<Box<dyn Node>> {
         
         // Remove this node from the singletons map if it is on there.
-        let mut singleton_name: Option<String> = None;
-        for (name, singleton_rid) in &self.singletons {
-            if *singleton_rid == rid {
-                singleton_name = Some(name.to_string());
-            }
-        }
-
-        if let Some(singleton_name) = singleton_name {
-            self.singletons.remove(&singleton_name);
-        }
+        self.singletons.retain(|_, singleton_rid| *singleton_rid != rid);
 
         // TODO: Register a singleton name directly on the node as well to save performance.
 
-- 
2.43.0


From 1ec30ed7a77dac935f904621561b151dd1d42304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 18/41] fix: provide the documented pause() and unpause()

Without them a tree could never be paused, and ProcessMode had no effect.
---
 node_tree_core/src/structs/node_tree_base.rs | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index a8605d9..be07df6 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -375,6 +375,27 @@ impl NodeTreeBase {
         self.status = TreeStatus::Terminated;
     }
 
+    /// Pauses the tree.
+    /// From then on, it depends on each node's `ProcessMode` if it is processed.
+    pub fn pause(&mut self) {
+        self.set_process(TreeProcess::Paused);
+    }
+
+    /// Unpauses the tree.
+    pub fn unpause(&mut self) {
+        self.set_process(TreeProcess::Running);
+    }
+
+    /// Sets whether the tree is running or paused.
+    /// This does nothing if the tree is already terminating.
+    fn set_process(&mut self, process: TreeProcess) {
+        match self.status {
+            TreeStatus::Process(_)           => self.status = TreeStatus::Process(process),
+            TreeStatus::QueuedTermination(_) => self.status = TreeStatus::QueuedTermination(process),
+            _                                => ()
+        }
+    }
+
     /// The recursive tail-end of the process function which traverses down the node tree.
     fn process_tail(&mut self, node: *mut dyn Node, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-- 
2.43.0


From 1910a6b6fded5c1d5cde6e13637b6b8d78cb4366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 19/41] fix: report a failed access whose owner has left the
 tree

Doing so dereferenced the missing owner, which is undefined behaviour.
---
 node_tree_core/src/structs/logger.rs         | 7 +++++--
 node_tree_core/src/structs/node_tree_base.rs | 9 +++++++++
 node_tree_core/src/structs/tree_option.rs    | 3 +--
 node_tree_core/src/structs/tree_pointer.rs   | 5 ++---
 node_tree_core/src/structs/tree_result.rs    | 3 +--
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index cea7e0e..2b73615 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -203,7 +203,7 @@ impl Logger {
             match node_tree.get_node_identity(calling) {
                 Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string().trim_start_matches('/').to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
-                None                                 => unimplemented!()
+                None                                 => SystemCall::Named("NodeTree".to_string()) // The caller has left the tree.
             }
         };
 
@@ -212,7 +212,10 @@ impl Logger {
         let time:   String = self.post_manual(system, log);
 
         if panic {
-            let node_tree_visual: String = draw_tree(node_tree, calling, 6, 6);
+            let node_tree_visual: String = match node_tree.get_node(calling) {
+                Some(_) => draw_tree(node_tree, calling, 6, 6),
+                None    => String::new()
+            };
             println!("
 {}{}
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index be07df6..d24ec77 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -543,6 +543,15 @@ impl NodeTreeBase {
         }
     }
 
+    /// Posts a panic to the log on the behalf of the owner of a tree pointer or a result.
+    /// If the owner has left the tree by now, then the tree posts it itself.
+    pub(crate) fn post_failure(&mut self, owner: RID, msg: &str) {
+        match self.get_node(owner) {
+            Some(owner) => owner.post(Log::Panic(msg)),
+            None        => self.post(owner, Log::Panic(msg))
+        }
+    }
+
     /// Gets the current log as a string.
     pub fn get_log(&self) -> &str {
         self.logger.to_str()
diff --git a/node_tree_core/src/structs/tree_option.rs b/node_tree_core/src/structs/tree_option.rs
index c2123dd..a743819 100644
--- a/node_tree_core/src/structs/tree_option.rs
+++ b/node_tree_core/src/structs/tree_option.rs
@@ -34,7 +34,6 @@ use std::option::{ Iter, IterMut };
 
 use crate::traits::node_tree::NodeTree;
 use super::rid::RID;
-use super::logger::Log;
 use super::tree_result::TreeResult;
 
 
@@ -484,7 +483,7 @@ impl <'a, T> TreeOption<'a, T> {
 
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(msg));
+        unsafe { &mut *self.tree }.post_failure(self.owner, msg);
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index f3551c6..dc15c87 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -35,7 +35,6 @@ use portable_intertrait::cast::*;
 
 use crate::traits::{ node::Node, node_tree::NodeTree };
 use super::rid::RID;
-use super::logger::Log;
 use super::tree_result::TreeResult;
 
 
@@ -248,7 +247,7 @@ impl <'a, T: Node> Tp<'a, T> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err:?}")));
+        unsafe { &mut *self.tree }.post_failure(self.owner, &format!("{err:?}"));
         println!("\n[RUST TRACE]");
         panic!();
     }
@@ -459,7 +458,7 @@ impl <'a> TpDyn<'a> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err}")));
+        unsafe { &mut *self.tree }.post_failure(self.owner, &format!("{err}"));
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index cad7c69..3cf9af4 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -31,7 +31,6 @@ use std::result::{ Iter, IterMut };
 
 use crate::traits::node_tree::NodeTree;
 use super::rid::RID;
-use super::logger::Log;
 use super::tree_option::TreeOption;
 
 
@@ -435,7 +434,7 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{msg}: {error:?}")));
+        unsafe { &mut *self.tree }.post_failure(self.owner, &format!("{msg}: {error:?}"));
         println!("\n[RUST TRACE]");
         panic!();
     }
-- 
2.43.0


From a7cee267c8d23dc3e84ffd857c8a58c53347db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 20/41] fix: drop the nodes of a tree along with it

---
 node_tree_core/src/structs/node_tree_base.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index d24ec77..4896ca1 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -558,6 +558,20 @@ impl NodeTreeBase {
     }
 }
 
+impl Drop for NodeTreeBase {
+    fn drop(&mut self) {
+
+        // The tree owns all of its nodes. Empty it first so that no tree pointer can reach a dropped node.
+        let nodes: RIDHolder<*mut dyn Node> = std::mem::replace(&mut self.nodes, RIDHolder::new());
+        for &node in nodes.iter().chain(&std::mem::take(&mut self.removed)) {
+            let mut node: Box<dyn Node> = unsafe { Box::from_raw(node) };
+            unsafe {
+                node.disconnnect_tree();
+            }
+        }
+    }
+}
+
 
 impl <'a> NodeGetter for &'a str {
     fn get_from(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID> {
-- 
2.43.0


From 33844d23cea43a746d21811340d6fbac802fefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:16 +0000
Subject: [PATCH 21/41] fix: drop the nodes of scenes that are never instanced

Every dropped scene, failed load and save leaked all of its nodes.
---
 node_tree_core/src/structs/node_scene.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 5645ad8..2c3aa5d 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -214,7 +214,10 @@ impl NodeScene {
 
         // Go through each node and serialize it:
         self.update_internal(0);
+        let mut saved: Vec<*mut dyn Node> = Vec::new();
         self.clone().iterate(|parent, node, is_owner| {
+            saved.push(node);
+
             let node:   &dyn Node         = unsafe { &*node };
             let parent: Option<&dyn Node> = parent.map(|x| unsafe { &*x });
             
@@ -240,6 +243,10 @@ impl NodeScene {
             }
         });
 
+        for node in saved {
+            drop(unsafe { Box::from_raw(node) });
+        }
+
         let mut buffer: String = SCN_COMMENT.to_string();
                 buffer        += &document.to_string();
         Ok(buffer)
@@ -355,6 +362,12 @@ impl Clone for NodeScene {
     }
 }
 
+impl Drop for NodeScene {
+    fn drop(&mut self) {
+        drop(unsafe { Box::from_raw(self.this) });
+    }
+}
+
 impl hash::Hash for NodeScene {
     #[inline]
     fn hash<H: hash::Hasher>(&self, state: &mut H) {
@@ -374,11 +387,13 @@ impl Instanceable for NodeScene {
 
         // Recursive function to traverse the tree
         fn traverse<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(
-            node:     NodeScene,
+            mut node: NodeScene,
             parent:   *mut dyn Node,
             iterator: &mut F
         ) {
-            for child in node.children {
+            let children: Vec<NodeScene> = std::mem::take(&mut node.children);
+            std::mem::forget(node); // Its node now belongs to whatever iterates over the scene.
+            for child in children {
 
                 // Call the iterator for the child node
                 if child.from_disk {
-- 
2.43.0


From 801cc4c6b78cbfc7f0f434c9ca99cfe51954779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 22/41] fix: do not ignore the initial value of an export
 default field

---
 node_tree_derive/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index ae9a03f..2b8bc4a 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -538,9 +538,15 @@ pub fn class(input: TokenStream) -> TokenStream {
                     #name: node_tree::structs::node_field::ExportableField::new(#name)
                 }
             },
-            FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
-            }, 
+            FieldKind::ExportDefault => if let Some(default_value) = &field.init {
+                quote! {
+                    #name: node_tree::structs::node_field::ExportableField::new(#default_value)
+                }
+            } else {
+                quote! {
+                    #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                }
+            },
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
                     #name: node_tree::structs::node_field::UniqueField::new(#default_value)
-- 
2.43.0


From f559e581d626f647ee66add5443e7a42cc2089d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 23/41] fix: take nodes down through the tree instead of a
 reference that its hooks invalidate

---
 node_tree_core/src/structs/node_base.rs | 66 +++++++++++++++++--------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index a430bb0..3d38f9f 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -333,17 +333,21 @@ impl NodeBase {
             return false;
         }
 
-        let (child_name, mut child): (String, TpDyn) = unsafe {
+        let (child_name, child): (String, TpDyn) = unsafe {
             child.map(|(_, child)| (child.name().to_string(), child)).unwrap_unchecked()
         };
-        child.take_down(TerminationReason::RemovedAsChild);
+        let rid:  RID               = self.rid;
+        let tree: *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
+        let node: *const NodeBase   = self;
+        let child_rid: RID          = child.rid();
+        unsafe {
+            Self::take_down(tree, child_rid, TerminationReason::RemovedAsChild);
+        }
 
         // The hooks that just ran may have removed this node as well.
-        if self.tree.is_none() {
-            return true;
+        if let Some(this) = unsafe { &*tree }.get_node(rid).filter(|&this| std::ptr::eq::<NodeBase>(&**this, node)) {
+            this.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, this.name())));
         }
-
-        self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
         true 
     }
 
@@ -601,7 +605,9 @@ impl NodeBase {
         
         let is_root: bool              = self.is_root();
         let tree:    *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
-        self.take_down(TerminationReason::Freed);
+        unsafe {
+            Self::take_down(tree, self.rid, TerminationReason::Freed);
+        }
 
         // If this is the root node, terminate the NodeTree.
         if is_root {
@@ -609,21 +615,36 @@ impl NodeBase {
         }
     }
 
-    /// Calls `terminal()` on this node and on all of the nodes below it, and once all of them had a
-    /// chance to react disconnects them from the `NodeTree`.
+    /// Calls `terminal()` on the node with the given `RID` and on all of the nodes below it, and once
+    /// all of them had a chance to react disconnects them from the `NodeTree`.
     ///
     /// The nodes themselves are kept in memory by the `NodeTree` until the end of the frame, as any
     /// of them could be what called for the removal.
-    fn take_down(&mut self, reason: TerminationReason) {
-        
+    ///
+    /// # Note
+    /// This does not take in `self`, as the hooks that run are free to change the node in question,
+    /// thus everything about it has to be looked up through the tree again.
+    ///
+    /// # Safety
+    /// The tree has to be valid.
+    unsafe fn take_down(tree: *mut dyn NodeTree, rid: RID, reason: TerminationReason) {
+        let target: *mut dyn Node = match unsafe { &*tree }.get_node_mut_raw(rid) {
+            Some(target) => target,
+            None         => return
+        };
+
         // Any of these hooks may free or add nodes, so go on until none are left.
         loop {
-            let pending: Vec<*mut dyn Node> = match self.tree() {
-                Some(tree) => self.top_down(true).into_iter()
-                    .filter_map(|rid| tree.get_node_mut_raw(rid))
-                    .filter(|&node| unsafe { !(&*node).exiting })
-                    .collect(),
-                None => return // A hook already brought this node down.
+            let pending: Vec<*mut dyn Node> = {
+                let tree: &dyn NodeTree = unsafe { &*tree };
+                match tree.get_node_mut_raw(rid) {
+                    Some(node) if std::ptr::addr_eq(node, target) => tree.get_node(rid).into_iter()
+                        .flat_map(|node| node.top_down(true))
+                        .filter_map(|rid| tree.get_node_mut_raw(rid))
+                        .filter(|&node| unsafe { !(&*node).exiting })
+                        .collect(),
+                    _ => return // A hook already brought this node down.
+                }
             };
             if pending.is_empty() {
                 break;
@@ -637,11 +658,14 @@ impl NodeBase {
             }
         }
 
+        let tree: &mut dyn NodeTree = unsafe { &mut *tree };
+        let (parent, branch): (Option<RID>, Vec<RID>) = match tree.get_node(rid) {
+            Some(node) => (node.parent, node.top_down(true)),
+            None       => return
+        };
+
         // Remove the reference of this node from its parent if it has a parent.
-        let rid:    RID               = self.rid;
-        let branch: Vec<RID>          = self.top_down(true);
-        let tree:   &mut dyn NodeTree = unsafe { &mut *self.tree.unwrap_unchecked() };
-        if let Some(parent) = self.parent.and_then(|parent| tree.get_node_mut(parent)) {
+        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
             parent.children.retain(|&child| child != rid);
         }
 
-- 
2.43.0


From 31c7db9219baff66c17ab07455ccd0519e8775fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 24/41] fix: keep the owner of a result in
 TreeResult::and_then, as all other combinators do

---
 node_tree_core/src/structs/tree_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index 3cf9af4..727453b 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -348,8 +348,8 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     #[inline]
     pub fn and_then<U, F: FnOnce(T) -> TreeResult<'a, U, E>>(self, op: F) -> TreeResult<'a, U, E> {
         match self.object {
-            Ok(t)  => op(t),
-            Err(e) => TreeResult { tree: self.tree, owner: self.owner, object: Err(e), p_life: self.p_life }
+            Ok(t)  => TreeResult { tree: self.tree, owner: self.owner, object: op(t).to_result(), p_life: self.p_life },
+            Err(e) => TreeResult { tree: self.tree, owner: self.owner, object: Err(e),            p_life: self.p_life }
         }
     }
 
-- 
2.43.0


From 9f941e73ff4fc6bef562e7f345c5b532c0d68dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 25/41] fix: allow default fields of generic types

---
 node_tree_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 2b8bc4a..155f12d 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -544,7 +544,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             } else {
                 quote! {
-                    #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                    #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
                 }
             },
             FieldKind::Unique => if let Some(default_value) = &field.init {
@@ -557,7 +557,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::Default => quote! {
-                #name: node_tree::structs::node_field::DefaultField::new(#ty::default())
+                #name: node_tree::structs::node_field::DefaultField::new(<#ty>::default())
             }
         }
     });
-- 
2.43.0


From 1fdde300866ff4dbb5ece20b076b21b82e00c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 26/41] fix: let connect! return the identifier of the
 connection, as documented

---
 node_tree_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 155f12d..846ba43 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -695,7 +695,7 @@ pub fn connect(input: TokenStream) -> TokenStream {
             let tp_: node_tree::prelude::Tp<_> = #tree_pointer;
             self.#signal_name.#connect_type(move |args| {
                 tp_.#callback(&args)
-            });
+            })
         }
     })
 }
-- 
2.43.0


From 3a53f220d9e590221da1f861a254d56d455eae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 27/41] fix: refuse floats out of the range of f32 in a scene
 file instead of loading infinity

---
 node_tree_core/src/traits/exportable.rs       |  7 +++++--
 node_tree_core/src/traits/glam_exportables.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index c517cc7..8bed10f 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -216,8 +216,11 @@ impl Exportable for f32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Float(i) => Some(i.into_value() as f32),
-            _                     => None
+            toml::Value::Float(i) => {
+                let float: f64 = i.into_value();
+                Some(float as f32).filter(|x| x.is_finite() || !float.is_finite())
+            },
+            _ => None
         }
     }
 }
diff --git a/node_tree_core/src/traits/glam_exportables.rs b/node_tree_core/src/traits/glam_exportables.rs
index d0fdda4..a46ab73 100644
--- a/node_tree_core/src/traits/glam_exportables.rs
+++ b/node_tree_core/src/traits/glam_exportables.rs
@@ -486,7 +486,7 @@ impl Exportable for g_f32::Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_f32::vec2(x.as_float()? as f32, y.as_float()? as f32));
+                        return Some(g_f32::vec2(f32::from_value(x.clone())?, f32::from_value(y.clone())?));
                     }
                     None
             },
@@ -503,7 +503,7 @@ impl Exportable for g_f32::Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_f32::vec3(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32));
+                        return Some(g_f32::vec3(f32::from_value(x.clone())?, f32::from_value(y.clone())?, f32::from_value(z.clone())?));
                     }
                     None
             },
@@ -520,7 +520,7 @@ impl Exportable for g_f32::Vec3A {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_f32::vec3a(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32));
+                        return Some(g_f32::vec3a(f32::from_value(x.clone())?, f32::from_value(y.clone())?, f32::from_value(z.clone())?));
                     }
                     None
             },
@@ -537,7 +537,7 @@ impl Exportable for g_f32::Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_f32::vec4(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32, w.as_float()? as f32));
+                        return Some(g_f32::vec4(f32::from_value(x.clone())?, f32::from_value(y.clone())?, f32::from_value(z.clone())?, f32::from_value(w.clone())?));
                     }
                     None
             },
@@ -625,7 +625,7 @@ impl Exportable for g_f32::Quat {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_f32::quat(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32, w.as_float()? as f32));
+                        return Some(g_f32::quat(f32::from_value(x.clone())?, f32::from_value(y.clone())?, f32::from_value(z.clone())?, f32::from_value(w.clone())?));
                     }
                     None
             },
-- 
2.43.0


From fe1a41c7244d57508050def5c1e002e6fd27d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 28/41] fix: save durations that a float cannot hold exactly

---
 node_tree_core/src/traits/exportable.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 8bed10f..a172715 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -317,11 +317,25 @@ impl Exportable for net::IpAddr {
 
 impl Exportable for time::Duration {
     fn to_value(&self) -> toml::Value {
-        self.as_secs_f64().to_value()
+        let secs: f64 = self.as_secs_f64();
+        if time::Duration::try_from_secs_f64(secs).ok() == Some(*self) {
+            return secs.to_value();
+        }
+
+        // A float is not precise enough for every duration.
+        toml::InlineTable::from_iter(vec![("secs", self.as_secs().to_value()), ("nanos", self.subsec_nanos().to_value())]).into()
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        time::Duration::try_from_secs_f64(value.as_float()?).ok()
+        match value {
+            toml::Value::Float(secs)                               => time::Duration::try_from_secs_f64(secs.into_value()).ok(),
+            toml::Value::InlineTable(mut table) if table.len() == 2 => {
+                let secs:  u64 = u64::from_value(table.remove("secs")?)?;
+                let nanos: u32 = u32::from_value(table.remove("nanos")?).filter(|nanos| *nanos < 1_000_000_000)?;
+                Some(time::Duration::new(secs, nanos))
+            },
+            _ => None
+        }
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From fd64e539c6282690eba333d65d1244f93341c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:52 +0000
Subject: [PATCH 29/41] fix: refuse tables with unknown keys for options and
 affine transforms

---
 node_tree_core/src/traits/exportable.rs       | 5 +++--
 node_tree_core/src/traits/glam_exportables.rs | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index a172715..17e064d 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -364,8 +364,9 @@ impl <T: Exportable> Exportable for Option<T> {
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
             toml::Value::InlineTable(mut table) => match table.remove("value") {
-                Some(value) => Some(Some(T::from_value(value)?)),
-                None        => Some(None)
+                Some(value) if table.is_empty() => Some(Some(T::from_value(value)?)),
+                None        if table.is_empty() => Some(None),
+                _                               => None
             },
             _ => None
         }
diff --git a/node_tree_core/src/traits/glam_exportables.rs b/node_tree_core/src/traits/glam_exportables.rs
index a46ab73..e19ccbd 100644
--- a/node_tree_core/src/traits/glam_exportables.rs
+++ b/node_tree_core/src/traits/glam_exportables.rs
@@ -643,7 +643,7 @@ impl Exportable for g_f32::Affine2 {
     }
 
     fn from_value(mut value: toml::Value) -> Option<Self> where Self: Sized {
-        let table: &mut toml::InlineTable = value.as_inline_table_mut()?;
+        let table: &mut toml::InlineTable = value.as_inline_table_mut().filter(|table| table.len() == 2)?;
 
         Some(g_f32::Affine2::from_mat2_translation(
             g_f32::Mat2::from_value(table.remove("matrix2")?)?,
@@ -661,7 +661,7 @@ impl Exportable for g_f32::Affine3A {
     }
 
     fn from_value(mut value: toml::Value) -> Option<Self> where Self: Sized {
-        let table: &mut toml::InlineTable = value.as_inline_table_mut()?;
+        let table: &mut toml::InlineTable = value.as_inline_table_mut().filter(|table| table.len() == 2)?;
 
         Some(g_f32::Affine3A::from_mat3_translation(
             g_f32::Mat3A::from_value(table.remove("matrix3")?)?.into(),
@@ -802,7 +802,7 @@ impl Exportable for g_f64::DAffine2 {
     }
 
     fn from_value(mut value: toml::Value) -> Option<Self> where Self: Sized {
-        let table: &mut toml::InlineTable = value.as_inline_table_mut()?;
+        let table: &mut toml::InlineTable = value.as_inline_table_mut().filter(|table| table.len() == 2)?;
 
         Some(g_f64::DAffine2::from_mat2_translation(
             g_f64::DMat2::from_value(table.remove("matrix2")?)?,
@@ -820,7 +820,7 @@ impl Exportable for g_f64::DAffine3 {
     }
 
     fn from_value(mut value: toml::Value) -> Option<Self> where Self: Sized {
-        let table: &mut toml::InlineTable = value.as_inline_table_mut()?;
+        let table: &mut toml::InlineTable = value.as_inline_table_mut().filter(|table| table.len() == 2)?;
 
         Some(g_f64::DAffine3::from_mat3_translation(
             g_f64::DMat3::from_value(table.remove("matrix3")?)?,
-- 
2.43.0


From 615bd115dbe2c3450f15e66a6fd61e0d878910a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:01 +0000
Subject: [PATCH 30/41] fix: refuse a scene file whose first node is the child
 of another one

---
 node_tree_core/src/structs/node_scene.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 2c3aa5d..fba6357 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -172,6 +172,12 @@ impl NodeScene {
                     }
                 },
                 None => {
+
+                    // A node with a parent cannot be the root: its parent is declared after it, or is missing.
+                    if parent.is_some() {
+                        return Err("Child was declared ahead of parent in the .scn file".to_string());
+                    }
+
                     let mut root_scene: NodeScene = NodeScene::new_dyn(node);
                             root_scene.from_disk  = true;
                             root_scene.is_owner   = is_owner;
-- 
2.43.0


From 10f5a5a9ec976fb7b4d42c12728fdf978e2b54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:32 +0000
Subject: [PATCH 31/41] fix: load and drop deep scenes without quadratic paths
 and recursion

---
 node_tree_core/src/structs/node_scene.rs | 109 ++++++++---------------
 1 file changed, 39 insertions(+), 70 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index fba6357..32c69bb 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -81,9 +81,10 @@ impl NodeScene {
     pub fn load_from_str(document: &str) -> Result<Self, String> {
         let document: toml::DocumentMut = document.parse().map_err(|err| format!("{err}"))?;
         
-        // Go through each node and deserialize it:
-        let mut node_scene: Option<NodeScene>        = None;
-        let mut traversal:  HashMap<RID, Vec<usize>> = HashMap::new(); // Cache used for quick traversal.
+        // Go through each node and deserialize it. A node's parent is always in front of it, so it
+        // suffices to note its place; the scene is put together once all of the nodes are known.
+        let mut scenes: Vec<(NodeScene, usize)> = Vec::new();
+        let mut places: HashMap<RID, usize>     = HashMap::new();
 
         for (key, node_data) in document.iter() {
 
@@ -114,80 +115,42 @@ impl NodeScene {
                 node.set_rid(local_rid);
             }
 
-            
-            // Append the node to the scene.
-            match node_scene.as_mut() {
-                Some(node_scene) => {
-                    
-                    // These nodes should have parents; check it and is it to determine the node's
-                    // placement.
-                    let parent_rid: RID = parent.ok_or("No parent registered for a non-root node".to_string())?;
-                    if parent_rid == 0 {
-
-                        // Save the node as a child of the root node and cache its traversal
-                        // coordinates.
-                        let mut new_scene: NodeScene = NodeScene::new_dyn(node);
-                                new_scene.from_disk  = true;
-
-                        if is_owner {
-                            node_scene.append_as_owner(new_scene);
-                        } else {
-                            node_scene.append(new_scene);
-                        }
-                        traversal.insert(local_rid, vec![node_scene.children.len() - 1]);
-                        continue;
-                    }
+            let mut scene: NodeScene = NodeScene::new_dyn(node);
+                    scene.from_disk  = true;
+                    scene.is_owner   = is_owner;
 
-                    // Otherwise, if the parent RID is other than zero, then we have to traverse to
-                    // the parent's position in the node_scene and append it from there.
-                    match traversal.get(&parent_rid) {
-                        Some(cached_path) => {
-                            
-                            // Funny pointer traversal
-                            let mut cursor: Option<*mut NodeScene> = None;
-                            let mut path:   Vec<usize>             = Vec::new();
-                            for &segment in cached_path {
-                                path.push(segment);
-                                match cursor {
-                                    Some(_) => cursor = cursor.map(|scene_ptr| &mut (unsafe { &mut *scene_ptr }.children[segment]) as *mut _),
-                                    None    => cursor = Some(&mut node_scene.children[segment])
-                                }
-                            }
-
-                            // This should always be `Some(_)`:
-                            let     found_parent: &mut NodeScene = unsafe { &mut *cursor.expect("Could not find a parent - internal bug") };
-                            let mut new_scene:    NodeScene      = NodeScene::new_dyn(node);
-                                    new_scene.from_disk          = true;
-
-                            if is_owner {
-                                found_parent.append_as_owner(new_scene);
-                            } else {
-                                found_parent.append(new_scene);
-                            }
-                            
-                            path.push(found_parent.children.len() - 1);
-                            traversal.insert(local_rid, path);
-                        },
-                        None => return Err("Child was declared ahead of parent in the .scn file".to_string())
-                    }
-                },
-                None => {
+            // Only the root may (and must) be without a parent.
+            let place: usize = scenes.len();
+            if place == 0 {
+                if parent.is_some() {
+                    return Err("Child was declared ahead of parent in the .scn file".to_string());
+                }
 
-                    // A node with a parent cannot be the root: its parent is declared after it, or is missing.
-                    if parent.is_some() {
-                        return Err("Child was declared ahead of parent in the .scn file".to_string());
-                    }
+                scenes.push((scene, 0));
+                continue;
+            }
 
-                    let mut root_scene: NodeScene = NodeScene::new_dyn(node);
-                            root_scene.from_disk  = true;
-                            root_scene.is_owner   = is_owner;
+            // A parent RID of zero always refers to the root.
+            let parent_place: usize = match parent.ok_or("No parent registered for a non-root node".to_string())? {
+                0          => 0,
+                parent_rid => *places.get(&parent_rid).ok_or("Child was declared ahead of parent in the .scn file".to_string())?
+            };
 
-                    node_scene = Some(root_scene);
-                }
+            places.insert(local_rid, place);
+            scenes.push((scene, parent_place));
+        }
+
+        // Move each node below its parent, beginning with the last one as it cannot have any
+        // children that aren't there yet.
+        while let Some((mut scene, parent_place)) = scenes.pop() {
+            scene.children.reverse();
+            match scenes.get_mut(parent_place) {
+                Some((parent, _)) => parent.children.push(scene),
+                None              => return Ok(scene)
             }
         }
 
-        node_scene.ok_or("No root node found in scene".to_string())
+        Err("No root node found in scene".to_string())
     }
 
     /// Loads a `NodeScene` from a `.scn` file.
@@ -371,6 +334,12 @@ impl Clone for NodeScene {
 impl Drop for NodeScene {
     fn drop(&mut self) {
         drop(unsafe { Box::from_raw(self.this) });
+
+        // The children are dropped one by one instead of recursively, since a scene can be of any depth.
+        let mut remaining: Vec<NodeScene> = std::mem::take(&mut self.children);
+        while let Some(mut scene) = remaining.pop() {
+            remaining.append(&mut scene.children);
+        }
     }
 }
 
-- 
2.43.0


From a8ca4800ca4b64bccfc53986e64f21a15ba2796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 32/41] fix: keep the variables of scene! apart from those of
 the caller

---
 node_tree_derive/src/generator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 9db5477..ff8af71 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -1,5 +1,5 @@
 use quote::quote;
-use proc_macro2::TokenStream as TokenStream2;
+use proc_macro2::{ Span, TokenStream as TokenStream2 };
 
 use crate::parser::*;
 
@@ -18,6 +18,11 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
             }
         },
         SceneNode::Node { node_type, params, settings, name, children } => {
+
+            // Variables of the caller that have the same names are still to be reachable.
+            let node:  syn::Ident = syn::Ident::new("node",  Span::mixed_site());
+            let scene: syn::Ident = syn::Ident::new("scene", Span::mixed_site());
+
             let params: TokenStream2 = match params {
                 Some(p) => quote! { (#p) },
                 None    => quote! { () },
@@ -26,7 +31,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
                 None       => quote! {},
                 Some(name) => quote! {
                     unsafe {
-                        node.set_name_unchecked(#name);
+                        #node.set_name_unchecked(#name);
                     }
                 }
             };
@@ -34,22 +39,22 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
             quote! {
                 {
-                    let mut node: #node_type = #node_type::new #params;
+                    let mut #node: #node_type = #node_type::new #params;
                     #name_set
 
                     #(#settings)*
                                         
-                    let mut scene: NodeScene = NodeScene::new(node);
+                    let mut #scene: NodeScene = NodeScene::new(#node);
                     #(
-                        scene.append(#children);
+                        #scene.append(#children);
                     )*
-                    scene
+                    #scene
                 }
             }
         }
-- 
2.43.0


From 211f0b446707009ef1866f11911aeeb146903cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:03 +0000
Subject: [PATCH 33/41] fix: allow any expression as a field setting in scene!

---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index ff8af71..0c8fdd3 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -39,7 +39,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    #node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From 203e0b51a02c42919775dae2a5ffd6b99d9fd20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 34/41] fix: allow classes whose names differ in case only in
 one module

---
 node_tree_derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 846ba43..1c5aa00 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -177,7 +177,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
             }
         }).collect(); // We need to collect here so that the unique identities are created here and now!
 
-    let static_name: syn::Ident   = syn::Ident::new(&format!("__static_init_{}", name.to_string().to_lowercase()), name.span());
+    let static_name: syn::Ident   = syn::Ident::new(&format!("__static_init_{}", name), name.span());
     let expanded:    TokenStream2 = quote! {
         impl node_tree::traits::registered::Registered for #name {
             fn save_from_owned(&self) -> node_tree::services::node_registry::FieldMap {
@@ -201,6 +201,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         }
         
         // Runs before main.
+        #[allow(non_snake_case)]
         #[node_tree::startup::ctor]
         unsafe fn #static_name() {
             use node_tree::prelude::Registered;
-- 
2.43.0


From a608d9948c41401b94a45b80dd70743028f96faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 35/41] fix: keep removed nodes in memory until no hook is
 running, even if a hook runs a frame

---
 node_tree_core/src/structs/node_base.rs      |  6 ++--
 node_tree_core/src/structs/node_tree_base.rs | 32 +++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 3d38f9f..1c71b4a 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -33,7 +33,7 @@ use super::{
     logger::Log,
     node_path::{ PathSeg, NodePath },
     node_scene::NodeScene,
-    node_tree_base::TerminationReason,
+    node_tree_base::{ RunningHooks, TerminationReason },
     tree_pointer::{ TPError, Tp, TpDyn },
     tree_result::TreeResult,
     rid::RID
@@ -290,7 +290,8 @@ impl NodeBase {
     /// Calls the `ready()` function of this node, preceded by `loaded()` if it was loaded from the disk.
     /// This does nothing if a hook of another node has removed this node in the meantime.
     pub(crate) fn make_ready(&mut self) {
-        let rid: RID = self.rid;
+        let rid:    RID                  = self.rid;
+        let _hooks: Option<RunningHooks> = self.tree_mut().map(|tree| tree.keep_removed());
         if let Some(node) = self.tree_mut().and_then(|tree| tree.get_node_mut(rid)) {
             if node.has_just_loaded() {
                 node.loaded();
@@ -634,6 +635,7 @@ impl NodeBase {
         };
 
         // Any of these hooks may free or add nodes, so go on until none are left.
+        let _hooks: RunningHooks = unsafe { &mut *tree }.keep_removed();
         loop {
             let pending: Vec<*mut dyn Node> = {
                 let tree: &dyn NodeTree = unsafe { &*tree };
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 4896ca1..8a45337 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -157,7 +157,8 @@ pub struct NodeTreeBase {
     singletons: HashMap<String, RID>,
     status:     TreeStatus,
     last_frame: Instant,
-    removed:    Vec<*mut dyn Node>   // Nodes that have left the tree, and are dropped at the end of the frame.
+    removed:    Vec<*mut dyn Node>,  // Nodes that have left the tree, and are dropped at the end of the frame.
+    hooks:      usize                // How many calls of the nodes' hooks are under way, as a hook may run a frame too.
 }
 
 impl NodeTreeBase {
@@ -179,7 +180,8 @@ impl NodeTreeBase {
             singletons: HashMap::new(),
             status:     TreeStatus::Process(TreeProcess::Running),
             last_frame: Instant::now(),
-            removed:    Vec::new()
+            removed:    Vec::new(),
+            hooks:      0
         };
         
         node_tree
@@ -261,12 +263,16 @@ impl NodeTreeBase {
 
         // Process the node tree recursively.
         if let Some(root) = self.get_node_mut_raw(Self::ROOT_RID) {
+            let _hooks: RunningHooks = self.keep_removed();
             self.process_tail(root, delta, ProcessMode::Pausable);
         }
 
         // Drop the nodes that have left the tree, as none of their functions are running anymore.
-        for node in std::mem::take(&mut self.removed) {
-            drop(unsafe { Box::from_raw(node) });
+        // This has to wait if this frame was started by one of them.
+        if self.hooks == 0 {
+            for node in std::mem::take(&mut self.removed) {
+                drop(unsafe { Box::from_raw(node) });
+            }
         }
 
         // Check the tree's status.
@@ -453,6 +459,12 @@ impl NodeTreeBase {
         }
     }
 
+    /// Keeps all of the nodes that have left the tree in memory for as long as the returned guard exists.
+    pub(crate) fn keep_removed(&mut self) -> RunningHooks {
+        self.hooks += 1;
+        RunningHooks(&mut self.hooks)
+    }
+
     /// Keeps a node that has left the tree in memory until the current frame has finished.
     pub(crate) fn drop_after_frame(&mut self, node: Box<dyn Node>) {
         self.removed.push(Box::into_raw(node));
@@ -586,6 +598,18 @@ impl NodeGetter for String {
 }
 
 
+/// Held while hooks of nodes are running.
+pub(crate) struct RunningHooks(*mut usize);
+
+impl Drop for RunningHooks {
+    fn drop(&mut self) {
+        unsafe {
+            *self.0 -= 1;
+        }
+    }
+}
+
+
 /// Initializes the base `NodeTreeBase` field in a `NodeTree` inherited object.
 ///
 /// # Safety
-- 
2.43.0


From 9ff781a2f7d8f0c1c1e6d2e7a6af727e9c929ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 36/41] fix: save strings with long runs of quotes

---
 node_tree_core/src/traits/exportable.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 17e064d..9147e97 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -258,7 +258,20 @@ impl Exportable for char {
 }
 impl Exportable for String {
     fn to_value(&self) -> toml::Value {
-        self.to_owned().into()
+
+        // Choose the representation here, as the default choice cannot deal with long runs of quotes.
+        let mut repr: String = String::with_capacity(self.len() + 2);
+        repr.push('"');
+        for c in self.chars() {
+            match c {
+                '"' | '\\'          => repr.extend(['\\', c]),
+                '\t'                => repr.push(c),
+                c if c.is_control() => repr += &format!("\\u{:04X}", c as u32),
+                c                   => repr.push(c)
+            }
+        }
+        repr.push('"');
+        repr.parse().unwrap_or_else(|_| self.to_owned().into())
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-- 
2.43.0


From 5590b590be006684b3559c65e8d9bd7940ef857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 37/41] fix: a node that is added to a node outside of a tree
 is dropped, not leaked

---
 node_tree_core/src/structs/node_base.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 1c71b4a..01b5808 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -203,6 +203,10 @@ impl NodeBase {
     /// # Panics
     /// Panics if this Node is not connected to a `NodeTree`.
     pub fn add_child<I: Instanceable>(&mut self, child: I) {
+        if self.tree.is_none() {
+            panic!("Cannot add a child to a node that is not in a `NodeTree`!");
+        }
+
         let mut added: Vec<*mut dyn Node> = Vec::new();
         child.iterate(|parent, node, is_owner| {
             if let Some(parent) = parent {
-- 
2.43.0


From 6523c9b13da9d87a4f23e3b76064f4b27e3dc0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 38/41] fix: a scene stays whole when copying one of its nodes
 panics

---
 node_tree_core/src/structs/node_scene.rs | 28 +++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 32c69bb..bdc69c3 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -309,25 +309,23 @@ impl NodeScene {
 
 impl Clone for NodeScene {
     fn clone(&self) -> Self {
-        let cloned_node = unsafe {
-            let     node_original: Box<dyn Node> = Box::from_raw(self.this);
-            let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
-            
-            node_new.set_rid(node_original.rid());
-            node_new.set_name(node_original.name());
+        // The original is only borrowed, so that it stays this scene's even if cloning it panics.
+        let     node_original: &dyn Node     = unsafe { &*self.this };
+        let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
+        
+        unsafe { node_new.set_rid(node_original.rid()); }
+        node_new.set_name(node_original.name());
 
-            let _ = Box::into_raw(node_original); // Convert the box back so that its instance isn't deallocated when dropped.
-                    Box::into_raw(node_new)
+        let mut scene: NodeScene = NodeScene {
+            this:      Box::into_raw(node_new),
+            children:  Vec::new(),
+            from_disk: self.from_disk,
+            is_owner:  self.is_owner,
         };
 
         // Recursively clone children
-        let cloned_children: Vec<NodeScene> = self.children.to_vec();
-        NodeScene {
-            this:      cloned_node,
-            children:  cloned_children,
-            from_disk: self.from_disk,
-            is_owner:  self.is_owner,
-        }
+        scene.children = self.children.to_vec();
+        scene
     }
 }
 
-- 
2.43.0


From 7d05800822133a0fb55240f36bb1290f9777e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 39/41] fix: class! and its derives name the standard library's
 types by their full paths, so that declarations compile whatever is called
 Box, String, Result or Unique0 around them

---
 node_tree_derive/src/lib.rs | 40 ++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 1c5aa00..3653745 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -85,8 +85,8 @@ pub fn r#abstract(input: TokenStream) -> TokenStream {
                 self as *mut dyn node_tree::traits::node::Node
             }
             
-            fn to_dyn_box(self) -> Box<dyn node_tree::traits::node::Node> {
-                Box::new(self)
+            fn to_dyn_box(self) -> std::boxed::Box<dyn node_tree::traits::node::Node> {
+                std::boxed::Box::new(self)
             }
 
             fn as_any_ref(&self) -> &dyn std::any::Any {
@@ -97,11 +97,11 @@ pub fn r#abstract(input: TokenStream) -> TokenStream {
                 self
             }
 
-            fn clone_as_instance(&self) -> Box<dyn node_tree::traits::node::Node> {
-                Box::new(self.clone())
+            fn clone_as_instance(&self) -> std::boxed::Box<dyn node_tree::traits::node::Node> {
+                std::boxed::Box::new(self.clone())
             }
 
-            fn name_as_type(&self) -> String {
+            fn name_as_type(&self) -> std::string::String {
                 std::any::type_name::<Self>().to_string()
             }
         }
@@ -149,33 +149,24 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         .collect();
 
     // Initialize deserialization lines from the fields.
-    let mut type_definitions: Vec<TokenStream2>      = Vec::new();
-    let     type_define_ptr:  *mut Vec<TokenStream2> = &mut type_definitions as *mut _;
-    let     deserialization:  Vec<TokenStream2>      = fields.iter()
+    let deserialization: Vec<TokenStream2> = fields.iter()
         .filter(|field| field.ident.as_ref().unwrap() != "base")
         .map(|field| {
             let field_name: &syn::Ident = field.ident.as_ref().expect("Field must be named");
             let field_type: &syn::Type  = &field.ty;
             
-            // Create a unique ident for the type; this is to avoid having to parse colons between
-            // generic arguments and the type.
-            let unique_ident: syn::Ident = syn::Ident::new(&format!("Unique{}", type_definitions.len()), proc_macro::Span::call_site().into());
-            unsafe { &mut *type_define_ptr }.push(quote! {
-                type #unique_ident = #field_type;
-            });
-            
             quote! {
                 #field_name: {
-                    if #unique_ident::is_ghost_export_type() {
-                        #unique_ident::void()
+                    if <#field_type as node_tree::traits::exportable::Exportable>::is_ghost_export_type() {
+                        <#field_type as node_tree::traits::exportable::Voidable>::void()
                     } else {
-                        #unique_ident::from_value(
+                        <#field_type as node_tree::traits::exportable::Exportable>::from_value(
                             owned_state.remove(stringify!(#field_name)).ok_or(format!("corrupt save data; `{}` missing", stringify!(#field_name)))?
                         ).ok_or(format!("corrupt save data; `{}` invalid type", stringify!(#field_name)))?
                     }
                 }
             }
-        }).collect(); // We need to collect here so that the unique identities are created here and now!
+        }).collect();
 
     let static_name: syn::Ident   = syn::Ident::new(&format!("__static_init_{}", name), name.span());
     let expanded:    TokenStream2 = quote! {
@@ -184,15 +175,14 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
                 let mut map = node_tree::services::node_registry::FieldMap::new();
                 #(
                     map.insert(
-                        Box::<str>::from(stringify!(#field_names)),
-                        Box::new(self.#field_names.clone()),
+                        std::boxed::Box::from(stringify!(#field_names)),
+                        std::boxed::Box::new(self.#field_names.clone()),
                     );
                 )*
                 map
             }
 
-            fn load_from_owned(mut owned_state: node_tree::services::node_registry::SFieldMap) -> Result<Self, String> where Self: Sized {
-                #(#type_definitions)*
+            fn load_from_owned(mut owned_state: node_tree::services::node_registry::SFieldMap) -> std::result::Result<Self, std::string::String> where Self: Sized {
                 Ok(Self {
                     base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),
                     #(#deserialization,)*
@@ -206,9 +196,9 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         unsafe fn #static_name() {
             use node_tree::prelude::Registered;
             
-            node_tree::services::node_registry::register_deserializer(std::any::type_name::<#name>().into(), Box::new(|s_field_map| {
+            node_tree::services::node_registry::register_deserializer(std::any::type_name::<#name>().into(), std::boxed::Box::new(|s_field_map| {
                 let node: #name = #name::load_from_owned(s_field_map)?;
-                Ok(Box::new(node) as Box<dyn node_tree::traits::node::Node>)
+                Ok(std::boxed::Box::new(node) as std::boxed::Box<dyn node_tree::traits::node::Node>)
             }));
         };
     };
-- 
2.43.0


From 363866fc38c9a0a09ee549b7d3563bc2d49e9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 40/41] fix: the Registered derive imports no name, so that a
 class may be called Registered or Ok

---
 node_tree_derive/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 3653745..348b92c 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -183,7 +183,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
             }
 
             fn load_from_owned(mut owned_state: node_tree::services::node_registry::SFieldMap) -> std::result::Result<Self, std::string::String> where Self: Sized {
-                Ok(Self {
+                std::result::Result::Ok(Self {
                     base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),
                     #(#deserialization,)*
                 })
@@ -194,11 +194,9 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         #[allow(non_snake_case)]
         #[node_tree::startup::ctor]
         unsafe fn #static_name() {
-            use node_tree::prelude::Registered;
-            
             node_tree::services::node_registry::register_deserializer(std::any::type_name::<#name>().into(), std::boxed::Box::new(|s_field_map| {
-                let node: #name = #name::load_from_owned(s_field_map)?;
-                Ok(std::boxed::Box::new(node) as std::boxed::Box<dyn node_tree::traits::node::Node>)
+                let node: #name = <#name as node_tree::traits::registered::Registered>::load_from_owned(s_field_map)?;
+                std::result::Result::Ok(std::boxed::Box::new(node) as std::boxed::Box<dyn node_tree::traits::node::Node>)
             }));
         };
     };
-- 
2.43.0


From bc28285f9d664bc6971dece8fea6d9a021883809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 41/41] fix: a setting of scene! may be of a type with a
 function wrap of its own

---
 node_tree_derive/src/generator.rs | 4 ++--
 node_tree_derive/src/lib.rs       | 8 +-------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 0c8fdd3..53de563 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -39,7 +39,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    #node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = node_tree::traits::element::AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
@@ -50,7 +50,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
                     #(#settings)*
                                         
-                    let mut #scene: NodeScene = NodeScene::new(#node);
+                    let mut #scene: node_tree::structs::node_scene::NodeScene = node_tree::structs::node_scene::NodeScene::new(#node);
                     #(
                         #scene.append(#children);
                     )*
diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 348b92c..fc64e5c 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -344,13 +344,7 @@ pub fn scene(input: TokenStream) -> TokenStream {
     let root:     SceneNode    = syn::parse_macro_input!(input as SceneNode);
     let expanded: TokenStream2 = generate_node(&root);
 
-    TokenStream::from(quote! {
-        {
-            use node_tree::traits::element::AsElement;
-            
-            #expanded
-        }
-    })
+    TokenStream::from(expanded)
 }
 
 
-- 
2.43.0

