From b49ed877c6445b492f6ff1c4a5c11d2f12ce61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 01/71] fix: dynamic access to lists returns None out of range
 and exposes reflexives as such

---
 src/ringhopper-primitives/src/primitive/array.rs | 4 ++--
 src/ringhopper-primitives/src/primitive/data.rs  | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/array.rs b/src/ringhopper-primitives/src/primitive/array.rs
index c30c063..c2b7173 100644
--- a/src/ringhopper-primitives/src/primitive/array.rs
+++ b/src/ringhopper-primitives/src/primitive/array.rs
@@ -240,11 +240,11 @@ impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> SimpleTagData fo
 
 impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> DynamicTagDataArray for [T; U] {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self[index])
+        self.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self[index])
+        self.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index fe2f049..2019c3f 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -857,6 +857,10 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
         DynamicTagDataType::Reflexive
     }
 
+    fn as_reflexive_mut(&mut self) -> Option<&mut dyn DynamicReflexive> {
+        Some(self as &mut dyn DynamicReflexive)
+    }
+
     fn as_array(&self) -> Option<&dyn DynamicTagDataArray> {
         Some(self as &dyn DynamicTagDataArray)
     }
@@ -868,11 +872,11 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
 
 impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagDataArray for Reflexive<T> {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self.items[index])
+        self.items.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self.items[index])
+        self.items.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 08498d93e69be24afac19a42ab812f62bda43d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 02/71] fix: tag group name lookup finds the last group (wind)

---
 src/ringhopper-primitives/src/primitive/group.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/group.rs b/src/ringhopper-primitives/src/primitive/group.rs
index 160c457..2edb53c 100644
--- a/src/ringhopper-primitives/src/primitive/group.rs
+++ b/src/ringhopper-primitives/src/primitive/group.rs
@@ -215,8 +215,10 @@ impl TagGroup {
     ///
     /// Returns an error `Error::NoSuchTagGroup` if `str` doesn't correspond to a group.
     pub fn from_str(str: &str) -> RinghopperResult<TagGroup> {
-        ALL_GROUPS.binary_search_by(|probe| probe.0.cmp(str))
-            .map(|n| ALL_GROUPS[n].1)
+        // `_Unset` is not a group and it is not in alphabetical order, so do not search it
+        let groups = &ALL_GROUPS[..TagGroup::_Unset as usize];
+        groups.binary_search_by(|probe| probe.0.cmp(str))
+            .map(|n| groups[n].1)
             .map_err(|_| Error::InvalidFourCC)
     }
 
-- 
2.43.0


From 25fe1ffcd6310b351865c6064eada8a5cf2dc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 03/71] fix: do not allocate memory for list counts that exceed
 the data

---
 .../src/primitive/data.rs                      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 2019c3f..a2a0c63 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -596,13 +596,17 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let count = c_primitive.count as usize;
         let item_size = T::size();
         let total_length = count.mul_overflow_checked(item_size)?;
+        let mut item_offset = *extra_data_cursor;
+        let items_end = item_offset.add_overflow_checked(total_length)?;
+
+        // The count is untrusted, so make sure all of the items are actually there before allocating memory for them
+        fits(total_length, item_offset, data.len())?;
+        *extra_data_cursor = items_end;
+
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
         };
 
-        let mut item_offset = *extra_data_cursor;
-        *extra_data_cursor = (item_offset).add_overflow_checked(total_length)?;
-
         for _ in 0..count {
             let struct_end = item_offset + item_size;
             result.items.push(T::read_from_tag_file(data, item_offset, struct_end, extra_data_cursor)?);
@@ -639,7 +643,13 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let mut address = c_primitive.address.into();
 
         // Make sure we can add all of these
-        count.mul_overflow_checked(item_size)?.add_overflow_checked(address)?;
+        let total_length = count.mul_overflow_checked(item_size)?;
+        total_length.add_overflow_checked(address)?;
+
+        // The count is untrusted, so make sure all of the items are actually there before allocating memory for them
+        if count != 0 && map.get_data_at_address(address, domain_type, total_length).is_none() {
+            return Err(Error::MapDataOutOfBounds(format!("cannot read {count} items of 0x{item_size:08X} bytes at 0x{address:08X}")));
+        }
 
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
-- 
2.43.0


From 6af6e760b53534cf8efde122c59aaf6f5b37f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 04/71] fix: validate and normalise tag paths read from tag
 files

---
 src/ringhopper-primitives/src/primitive/path.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 7645310..bd61a53 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -483,12 +483,9 @@ impl TagData for TagReference {
 
         *extra_data_cursor = end;
 
-        Ok(TagReference::Set(
-            TagPath {
-                path: std::str::from_utf8(&data[start..null_byte_index]).map_err(|_| Error::InvalidTagPath)?.to_owned(),
-                group
-            }
-        ))
+        // The path is untrusted; it must be held to the same rules as any other tag path
+        let path = std::str::from_utf8(&data[start..null_byte_index]).map_err(|_| Error::InvalidTagPath)?;
+        Ok(TagReference::Set(TagPath::new(path, group)?))
     }
 
     fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> RinghopperResult<()> {
-- 
2.43.0


From 045e25965b13b367d79f1761a3a0cf21af06f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 05/71] fix: a reference to an empty path no longer makes the
 saved tag unreadable

---
 src/ringhopper-primitives/src/primitive/path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index bd61a53..c4463f9 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -497,8 +497,11 @@ impl TagData for TagReference {
                 }
             },
             TagReference::Set(path) => {
-                data.extend_from_slice(path.path.as_bytes());
-                data.push(0x00);
+                // An empty path is stored the same way as a null reference, which has no string
+                if !path.path.is_empty() {
+                    data.extend_from_slice(path.path.as_bytes());
+                    data.push(0x00);
+                }
                 TagReferenceC {
                     tag_group: path.group,
                     path_length: path.path.len().into_u32()?,
-- 
2.43.0


From 1c48e13c8dc7c8e3d2dbd154695e450c5b596713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 06/71] fix: report the stored size of planes, not the size in
 memory

---
 src/ringhopper-primitives/src/primitive/plane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/plane.rs b/src/ringhopper-primitives/src/primitive/plane.rs
index 9b2dbc0..d30c109 100644
--- a/src/ringhopper-primitives/src/primitive/plane.rs
+++ b/src/ringhopper-primitives/src/primitive/plane.rs
@@ -36,7 +36,7 @@ impl Plane for Plane2D {
 
 impl SimpleTagData for Plane2D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector2D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector2D::read::<B>(data, at, struct_end)?;
@@ -77,7 +77,7 @@ impl Plane for Plane3D {
 
 impl SimpleTagData for Plane3D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector3D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector3D::read::<B>(data, at, struct_end)?;
-- 
2.43.0


From e6813e408bfd34da58ea5dea3b7e61c8b5329a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 07/71] fix: write the address of DataC where it is read from

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index a2a0c63..029e827 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -1017,8 +1017,8 @@ impl SimpleTagData for DataC {
         self.size.write::<B>(data, at, struct_end)?;
         self.flags.write::<B>(data, at + 0x4, struct_end)?;
         self.file_offset.write::<B>(data, at + 0x8, struct_end)?;
-        self.padding.write::<B>(data, at + 0xC, struct_end)?;
-        self.address.write::<B>(data, at + 0x10, struct_end)?;
+        self.address.write::<B>(data, at + 0xC, struct_end)?;
+        self.padding.write::<B>(data, at + 0x10, struct_end)?;
         Ok(())
     }
 }
-- 
2.43.0


From 98ee4c169fd9706c2bea45c57acb4e67d982b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 08/71] fix: compress tiny negative floats to zero instead of
 -1

---
 src/ringhopper-primitives/src/primitive/vector.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index ff741ee..7e35d38 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -859,7 +859,8 @@ fn compress_float<const BITS: usize>(value: f64) -> u32 {
     let value = (positive * (max as f64)).round();
     let mut integer = value as u32;
     if is_negative {
-        integer = integer | 1 << (BITS - 1);
+        // tiny negative values round to zero, so carry out of the sign bit
+        integer = (integer + (1 << (BITS - 1))) & (((1u64 << BITS) - 1) as u32);
     }
 
     integer
-- 
2.43.0


From a008dbe75e153c639660ff09cbf151345b9d379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 09/71] fix: Vector::normalize_into scales to the requested
 unit

---
 src/ringhopper-primitives/src/primitive/vector.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index 7e35d38..cdc7a1d 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -41,12 +41,10 @@ pub trait Vector: Sized + Copy + Clone {
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
         if magnitude_sq == 0.0 {
-            return Self::one();
+            return Self::one().scale(unit);
         }
 
-        let result = self.scale(unit / magnitude_sq.sqrt());
-        debug_assert!(result.is_unit_vector());
-        result
+        self.scale(unit / magnitude_sq.sqrt())
     }
 
     /// Return `true` if the vector is a unit vector.
-- 
2.43.0


From 6cd84789b5e12dc81401ed918ac45edf49f9edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 10/71] fix: ID::from_u32_checked accepts valid IDs and refuses
 invalid ones

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 029e827..f48debb 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -135,10 +135,10 @@ impl ID {
     pub const fn from_u32_checked(id: u32) -> RinghopperResult<Self> {
         let id = Self::from_u32(id);
         if id.is_valid() {
-            Err(Error::InvalidID)
+            Ok(id)
         }
         else {
-            Ok(id)
+            Err(Error::InvalidID)
         }
     }
 
-- 
2.43.0


From 7c8e08566cb7741466700f5dec9ac1885f6206ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 11/71] fix: String32::from_str refuses text it cannot hold
 (embedded null)

---
 src/ringhopper-primitives/src/primitive/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/string.rs b/src/ringhopper-primitives/src/primitive/string.rs
index b4d6389..9fd9712 100644
--- a/src/ringhopper-primitives/src/primitive/string.rs
+++ b/src/ringhopper-primitives/src/primitive/string.rs
@@ -36,6 +36,9 @@ impl String32 {
         if strlen >= output.string_data.len() {
             return Err(Error::String32SizeLimitExceeded)
         }
+        if bytes.contains(&0) {
+            return Err(Error::InvalidTagData("string contains a null character".to_owned()))
+        }
 
         output.string_data[0..strlen].copy_from_slice(bytes);
         Ok(output)
-- 
2.43.0


From 6d83280bfcd067bddf3641cf5f04e713970b448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 12/71] fix: name_of_field_from_ptr returns the field's
 selector name

---
 src/ringhopper-structs-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index 1925a35..daa9279 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -349,7 +349,7 @@ impl ToTokenStream for Struct {
             match &field.field_type {
                 StructFieldType::Object(o) => {
                     if !field.flags.exclude {
-                        writeln!(&mut reverse_field_matcher, "if field == &self.{field_name} as *const dyn DynamicTagData {{ return \"{field_name}\" }}").unwrap();
+                        writeln!(&mut reverse_field_matcher, "if field == &self.{field_name} as *const dyn DynamicTagData {{ return \"{field_matcher}\" }}", field_matcher=fields_with_matchers[i]).unwrap();
 
                         let mut doc = String::new();
                         if let Some(n) = &field.flags.comment {
-- 
2.43.0


From 82224b44b6f9386f0ce4e3a20b8b6c160314af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 13/71] fix: particle radius animation defaults were filled
 when stripping and stripped when filling

---
 src/ringhopper/src/tag/default/particle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/default/particle.rs b/src/ringhopper/src/tag/default/particle.rs
index 2a0f139..196cdbd 100644
--- a/src/ringhopper/src/tag/default/particle.rs
+++ b/src/ringhopper/src/tag/default/particle.rs
@@ -4,11 +4,11 @@ use ringhopper_structs::Particle;
 pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 0.0 {
-        particle.radius_animation.lower = 1.0;
+    if particle.radius_animation.lower == 1.0 {
+        particle.radius_animation.lower = 0.0;
     }
-    if particle.radius_animation.upper == 0.0 {
-        particle.radius_animation.upper = 1.0;
+    if particle.radius_animation.upper == 1.0 {
+        particle.radius_animation.upper = 0.0;
     }
 
     if (particle.fade_start_size == 5.0 || particle.fade_start_size == 0.0) && (particle.fade_end_size == 4.0 || particle.fade_end_size == 0.0) {
@@ -20,11 +20,11 @@ pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
 pub fn set_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 1.0 {
-        particle.radius_animation.lower = 0.0;
+    if particle.radius_animation.lower == 0.0 {
+        particle.radius_animation.lower = 1.0;
     }
-    if particle.radius_animation.upper == 1.0 {
-        particle.radius_animation.upper = 0.0;
+    if particle.radius_animation.upper == 0.0 {
+        particle.radius_animation.upper = 1.0;
     }
 
     // This is a weird behavior with tool.exe, since it can unset values you might've wanted, so the verification step
-- 
2.43.0


From 000253204d37e79a5750c86151512b505c6a6b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 14/71] fix: sound distance defaults that a single-precision
 tag cannot hold were never stripped again

---
 src/ringhopper/src/tag/default/sound.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/default/sound.rs b/src/ringhopper/src/tag/default/sound.rs
index 8ba5955..3e98338 100644
--- a/src/ringhopper/src/tag/default/sound.rs
+++ b/src/ringhopper/src/tag/default/sound.rs
@@ -201,7 +201,7 @@ fn default_min_max_distance_sounds(sound_class: SoundClass) -> Bounds<f64> {
         | SoundClass::AmbientNature
         | SoundClass::DeviceDoor
         | SoundClass::Music
-        | SoundClass::DeviceNature => Bounds { lower: 0.9, upper: 5.0 },
+        | SoundClass::DeviceNature => Bounds { lower: 0.9f32 as f64, upper: 5.0 },
 
         SoundClass::WeaponEmpty
         | SoundClass::WeaponIdle
@@ -225,11 +225,11 @@ fn default_min_max_distance_sounds(sound_class: SoundClass) -> Bounds<f64> {
 
         SoundClass::VehicleEngine
         | SoundClass::ProjectileImpact
-        | SoundClass::VehicleCollision => Bounds { lower: 1.4, upper: 8.0 },
+        | SoundClass::VehicleCollision => Bounds { lower: 1.4f32 as f64, upper: 8.0 },
 
         SoundClass::WeaponFire => Bounds { lower: 4.0, upper: 70.0 },
         SoundClass::ScriptedEffect => Bounds { lower: 2.0, upper: 5.0 },
         SoundClass::ProjectileDetonation => Bounds { lower: 8.0, upper: 120.0 },
-        SoundClass::UnitFootsteps => Bounds { lower: 0.9, upper: 10.0 }
+        SoundClass::UnitFootsteps => Bounds { lower: 0.9f32 as f64, upper: 10.0 }
     }
 }
-- 
2.43.0


From ae1171ff065efe0013e5130904b29add3de28583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 15/71] fix: the group of a blank reference to any group
 differed from build to build

---
 src/ringhopper-definitions/src/types/parse.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-definitions/src/types/parse.rs b/src/ringhopper-definitions/src/types/parse.rs
index 7646a54..69759bc 100644
--- a/src/ringhopper-definitions/src/types/parse.rs
+++ b/src/ringhopper-definitions/src/types/parse.rs
@@ -46,7 +46,9 @@ macro_rules! oget_size {
 /// Recursively resolve parent groups (e.g. object -> [unit, device, etc.] -> [biped, vehicle, device_machine, etc.])
 fn get_all_child_groups(parent: &String, groups: &HashMap<String, TagGroup>) -> Vec<String> {
     if parent == "*" {
-        return groups.keys().map(|f| f.to_owned()).collect()
+        let mut all: Vec<String> = groups.keys().map(|f| f.to_owned()).collect();
+        all.sort();
+        return all
     }
 
     // Not an actual supergroup, but functionally is one
@@ -54,8 +56,11 @@ fn get_all_child_groups(parent: &String, groups: &HashMap<String, TagGroup>) ->
         return vec!["gbxmodel".to_owned()];
     }
 
+    // Hash maps iterate in a different order in every build, so sort
     let mut result = Vec::new();
-    for (group_name, group) in groups {
+    let mut sorted_groups: Vec<_> = groups.iter().collect();
+    sorted_groups.sort_by(|a, b| a.0.cmp(b.0));
+    for (group_name, group) in sorted_groups {
         if group.supergroup.as_ref() == Some(parent) {
             result.push(group_name.to_owned());
             result.append(&mut get_all_child_groups(group_name, groups));
-- 
2.43.0


From a5a535ad10b55ba01316207b9a2a8eb150a24838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 16/71] fix: tag filters crashed on non-ASCII text and took
 exponential time on repeated wildcards

---
 src/ringhopper/src/tag/tree.rs | 78 ++++++++++++++--------------------
 1 file changed, 32 insertions(+), 46 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 2989d79..fd41665 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -84,7 +84,7 @@ impl TagFilter {
             let group_len = group_as_string.len();
             let filter_len = filter.len();
             let possible_dot = filter_len.wrapping_sub(group_len + 1);
-            if filter_len > group_len && filter.chars().nth(possible_dot) == Some('.') && filter.ends_with(group_as_string) {
+            if filter_len > group_len && filter.as_bytes()[possible_dot] == b'.' && filter.ends_with(group_as_string) {
                 filter = &filter[..possible_dot];
             }
         }
@@ -136,7 +136,7 @@ impl TagFilter {
         let group_len = group_as_string.len();
         let filter_len = path.len();
         let possible_dot = filter_len.wrapping_sub(group_len + 1);
-        if filter_len > group_len && path.chars().nth(possible_dot) == Some('.') && path.ends_with(group_as_string) {
+        if filter_len > group_len && path.as_bytes()[possible_dot] == b'.' && path.ends_with(group_as_string) {
             &path[..possible_dot]
         }
         else {
@@ -229,57 +229,43 @@ impl TagFilter {
         }
     }
 
-    fn filter_passes_raw(mut filter: &str, mut what: &str) -> bool {
-        loop {
-            let filter_first = filter.chars().next();
-            let what_first = what.chars().next();
+    fn filter_passes_raw(filter: &str, what: &str) -> bool {
+        let filter: Vec<char> = filter.chars().collect();
+        let what: Vec<char> = what.chars().collect();
 
-            // Empty matches if both are empty
-            if filter_first.is_none() {
-                return what_first.is_none()
-            }
+        let mut filter_position = 0;
+        let mut what_position = 0;
 
-            // Remove successive *s
-            let filter_first = filter_first.unwrap();
-            if filter_first == '*' {
-                let next_unsuccessive_asterisk = match filter.find(|f| f != filter_first) {
-                    Some(n) => n - 1,
-                    None => return true // only asterisks left, so everything is matched
-                };
-                filter = &filter[next_unsuccessive_asterisk..];
-            }
-
-            // If the test string is now empty, bail
-            if what_first.is_none() {
-                return false;
-            }
+        // Where to continue from if we have to let the last * we passed match one more character.
+        let mut last_asterisk: Option<(usize, usize)> = None;
 
-            let what_first = what_first.unwrap();
-
-            filter = &filter[1..];
-            if filter_first != '*' {
-                what = &what[1..];
+        while what_position < what.len() {
+            match filter.get(filter_position) {
+                Some('*') => {
+                    last_asterisk = Some((filter_position + 1, what_position));
+                    filter_position += 1;
+                    continue
+                },
+                Some(c) if *c == '?' || *c == what[what_position] => {
+                    filter_position += 1;
+                    what_position += 1;
+                    continue
+                },
+                _ => ()
             }
 
-            if filter_first == '?' || filter_first == what_first {
-                continue
-            }
-            else if filter_first == '*' {
-                if filter.is_empty() {
-                    return true
-                }
-                while !what.is_empty() {
-                    if Self::filter_passes_raw(filter, what) {
-                        return true
-                    }
-                    what = &what[1..];
-                }
-                return false
-            }
-            else {
-                return false
+            match last_asterisk {
+                Some((after_asterisk, matched_until)) => {
+                    filter_position = after_asterisk;
+                    what_position = matched_until + 1;
+                    last_asterisk = Some((after_asterisk, what_position));
+                },
+                None => return false
             }
         }
+
+        // The rest may only be asterisks.
+        filter[filter_position..].iter().all(|c| *c == '*')
     }
 }
 
-- 
2.43.0


From f0fca036d717052adf761366c11658d0bebc8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 17/71] fix: evicting a cached tag that is still in use
 elsewhere no longer panics

---
 src/ringhopper/src/tag/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index fd41665..ec23e46 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -468,7 +468,10 @@ impl<T: TagTree> CachingTagTree<T> {
             .lock()
             .unwrap()
             .remove(path)
-            .map(|tag| Arc::into_inner(tag).unwrap().into_inner().unwrap())
+            .map(|tag| match Arc::try_unwrap(tag) {
+                Ok(n) => n.into_inner().unwrap(),
+                Err(shared) => shared.lock().unwrap().clone_inner() // still in use elsewhere, so we need a copy
+            })
     }
 
     /// Write the tag to the delegate.
-- 
2.43.0


From 319bbadbb80262d89466982114a0eee54ec09244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 18/71] fix: instant writes through the tag cache report
 whether the tag was actually saved

---
 src/ringhopper/src/tag/tree.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index ec23e46..b5223b9 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -523,11 +523,12 @@ impl<T: TagTree> TagTree for CachingTagTree<T> {
         self.inner.files_in_path(path)
     }
     fn write_tag(&mut self, path: &TagPath, tag: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
-        if self.strategy == CachingTagTreeWriteStrategy::Instant {
-            self.inner.write_tag(path, tag)?;
-        }
+        let written = match self.strategy {
+            CachingTagTreeWriteStrategy::Instant => self.inner.write_tag(path, tag)?,
+            CachingTagTreeWriteStrategy::Manual => true
+        };
         self.tag_cache.lock().unwrap().insert(path.to_owned(), Arc::new(Mutex::new(tag.clone_inner())));
-        Ok(true)
+        Ok(written)
     }
     fn contains(&self, path: &TagPath) -> bool {
         self.inner.contains(path)
-- 
2.43.0


From 0136581e98d07f6277289dc74df2683a13594228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 19/71] fix: a directory named like a tag is not a tag

---
 src/ringhopper/src/tag/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index b5223b9..d60999a 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -614,7 +614,7 @@ impl VirtualTagsDirectory {
         let file_to_write_to = match &self.cow_output {
             Some(n) => {
                 let path = n.join(path.to_native_path());
-                if path.exists() && hash_external_file(&path)? == hash {
+                if path.is_file() && hash_external_file(&path)? == hash {
                     return Ok(false) // file in cow matches
                 }
                 path
@@ -635,7 +635,7 @@ impl VirtualTagsDirectory {
         for index in 0..self.directories.len() {
             let directory = &self.directories[index];
             let path_to_test = directory.join(&native_path);
-            if !path_to_test.exists() {
+            if !path_to_test.is_file() {
                 continue
             }
             return Some((index, path_to_test));
-- 
2.43.0


From 2cdf2f44e541b3a07635cf04aab568e3b14f35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 20/71] fix: a tag file that holds a tag of another group than
 its name says is refused

---
 src/ringhopper/src/tag/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index d60999a..3bd43cb 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -655,6 +655,9 @@ impl TagTree for VirtualTagsDirectory {
         let hash = Self::hash_file(file.as_slice());
         let mut tag = ringhopper_structs::read_any_tag_from_file_buffer(&file, self.strictness)
             .map_err(|e| Error::FailedToReadTag(path.clone(), vec![e]))?;
+        if tag.group() != path.group() {
+            return Err(Error::FailedToReadTag(path.clone(), vec![Error::TagHeaderGroupTypeMismatch]))
+        }
         tag.metadata_mut().hash = Some(hash);
         Ok(tag)
     }
-- 
2.43.0


From 042bf24278930cc3dcb8374c09fdccf24d6d76eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 21/71] fix: listing layered tag directories repeated tags and
 crashed on files that are not tags

---
 src/ringhopper/src/tag/tree.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 3bd43cb..f649852 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -1,5 +1,5 @@
 use std::borrow::Cow;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use crc64::crc64;
@@ -663,6 +663,7 @@ impl TagTree for VirtualTagsDirectory {
     }
     fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> {
         let mut result = Vec::new();
+        let mut found = HashSet::new();
         let mut success = false;
 
         for dir_path in &self.directories {
@@ -685,6 +686,13 @@ impl TagTree for VirtualTagsDirectory {
                     if !is_dir {
                         let extension = path.rfind('.')?;
                         let tag_group = TagGroup::from_str(&path[extension + 1..]).ok()?;
+
+                        // Ignore files that cannot be opened as a tag because of how they are named
+                        let tag_path = TagPath::new(&path[..extension], tag_group).ok()?;
+                        if !cfg!(windows) && tag_path.to_native_path() != path {
+                            return None
+                        }
+
                         path.truncate(extension);
                         Some(TagTreeItem::new(
                             TagTreeItemType::Tag,
@@ -705,14 +713,12 @@ impl TagTree for VirtualTagsDirectory {
                 });
 
             for f in entries {
-                result.push(f);
+                if found.insert((f.tag_group, f.path.clone())) {
+                    result.push(f);
+                }
             }
         }
 
-        result.dedup_by(|a, b| {
-            a.item_type == b.item_type && a.tag_group == b.tag_group && a.path == b.path
-        });
-
         if !success {
             return None
         }
-- 
2.43.0


From aab2873c81718928ad86d73ed7bc365aa34c3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 22/71] fix: nudging carries into the right digit (1.000006
 became 2, 9.999999 became 0)

---
 src/ringhopper/src/tag/nudge.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 7c8b79a..e713d72 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -192,18 +192,21 @@ pub(crate) fn fix_decimal_rounding(float: f64) -> f64 {
     }
 
     // Do rounding here
-    if round_up {
-        for (byte, _) in ignore_dot_iter!(written[..sig_figs_end]).rev() {
-            if *byte == b'9' {
-                *byte = b'0';
-            } else {
-                *byte += 1;
-                break;
-            }
+    let mut carry = round_up;
+    for byte in written[..sig_figs_end].iter_mut().rev().filter(|b| **b != b'.') {
+        if !carry {
+            break;
+        }
+        if *byte == b'9' {
+            *byte = b'0';
+        } else {
+            *byte += 1;
+            carry = false;
         }
     }
 
     let fstr = std::str::from_utf8(&written).expect("should be utf-8");
+    let fstr = format!("{}{fstr}", if carry { "1" } else { "" });
     let f: f64 = fstr.parse().map_err(|e| panic!("can't parse the float we just made `{fstr}` as a float: {e:?}")).unwrap();
     f * signum
 }
-- 
2.43.0


From 7c7bc12d29454ca74e7cc45238c566f85cfc4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 23/71] fix: nudging reports a change only when something
 changed

---
 src/ringhopper/src/tag/nudge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index e713d72..bb50bb6 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -66,8 +66,8 @@ fn nudge_object(object: &mut Object) -> bool {
         }
 
         if all_same {
-            result = true;
             for p in &mut cc.permutations {
+                result |= p.weight != 1.0;
                 p.weight = 1.0;
             }
         }
@@ -132,7 +132,7 @@ fn nudge_light(a: &mut Light) -> bool {
 
 fn nudge(float: &mut f64, was_nudged_thus_far: &mut bool) {
     let fixed = fix_decimal_rounding(*float);
-    if fixed != *float {
+    if fixed != *float && !fixed.is_nan() {
         *float = fixed;
         *was_nudged_thus_far |= true;
     }
-- 
2.43.0


From 81ef49e5e8ef4a26f3708955c3ec03a19fd2d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 24/71] fix: exporting string lists keeps blank lines at the
 end of a string

---
 src/ringhopper/src/tag/unicode_string_list.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/unicode_string_list.rs b/src/ringhopper/src/tag/unicode_string_list.rs
index 7c1eb49..2b18ee8 100644
--- a/src/ringhopper/src/tag/unicode_string_list.rs
+++ b/src/ringhopper/src/tag/unicode_string_list.rs
@@ -191,7 +191,11 @@ impl UnicodeStringListFunctions for UnicodeStringList {
         data.extend_from_slice(0xFEFFu16.to_le_bytes().as_slice());
         for i in 0..self.string_count() {
             let string = self.strings.items[i].string.get_string().map_err(|_| UnicodeStringListError::InvalidStringData)?;
-            for line in string.lines() {
+            for line in string.split('\n').map(|l| l.strip_suffix(CR).unwrap_or(l)) {
+                // An empty string has no lines
+                if string.is_empty() {
+                    break
+                }
                 let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
                 data.extend(line_encoder);
             }
-- 
2.43.0


From a41fe269b0b3c8fc41bd135243fbad021a9bda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 25/71] fix: nudging took a weight that is not a number for an
 equal share

---
 src/ringhopper/src/tag/nudge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index bb50bb6..e6cc96f 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -59,7 +59,7 @@ fn nudge_object(object: &mut Object) -> bool {
             let weight = p.weight;
             let proportion = (weight * &permutation_ratio_inverse) - 1.0;
 
-            if p.weight < 0.0 || proportion.abs() > error {
+            if p.weight < 0.0 || !(proportion.abs() <= error) {
                 all_same = false;
                 break;
             }
-- 
2.43.0


From 2888a78a4b2ca2961c392f8076bc725dc0aa0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:20 +0000
Subject: [PATCH 26/71] fix: searching for referring tags crashed on an
 unreadable tag

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 7240892..a2a6c60 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -130,7 +130,7 @@ pub fn get_reverse_dependencies_for_tag<T: TagTree>(tag: &TagPath, tag_tree: &T)
             continue
         }
 
-        let t = tag_tree.open_tag_shared(&i).unwrap();
+        let t = tag_tree.open_tag_shared(&i)?;
         let t = t.lock().unwrap();
         if get_tag_dependencies_for_block(t.as_ref().as_dynamic()).contains(tag) {
             result.insert(i);
-- 
2.43.0


From 4d18f23ee2dbe6e705177d6bf8e406348366fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 27/71] fix: changing a reference group to itself was reported
 as a change

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index a2a6c60..5e5a078 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -48,7 +48,7 @@ pub fn refactor_groups_for_block<T: TagTree>(data: &mut dyn DynamicTagData, from
     for_each_dependency_mut(data, access_read_only_fields, |allowed, dependency| {
         let allowed = allowed.contains(&to);
 
-        if !allowed || dependency.group() != from {
+        if !allowed || dependency.group() != from || from == to {
             return;
         }
 
-- 
2.43.0


From e3eb58932f37c4b40a4cc9f1605a9913f9ca4cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:38 +0000
Subject: [PATCH 28/71] fix: asking for the tags of a map crashed when given
 something other than a scenario

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 5e5a078..08db1ff 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -147,7 +147,7 @@ pub fn recursively_get_dependencies_for_map<T: TagTree>(scenario: &TagPath, tag_
 
     let mutex = tag_tree.open_tag_shared(scenario)?;
     let lock = mutex.lock().unwrap();
-    let scenario_tag: &Scenario = lock.as_any().downcast_ref().unwrap();
+    let scenario_tag: &Scenario = lock.as_any().downcast_ref().ok_or_else(|| Error::Other(format!("{scenario} is not a scenario")))?;
 
     let other: &'static [&'static str] = match scenario_tag._type {
         ScenarioType::Singleplayer => engine.required_tags.singleplayer,
-- 
2.43.0


From adf8781a1fef2cc5c01263a018e4f69913da3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:49 +0000
Subject: [PATCH 29/71] fix: renaming tags crashed when a tag that is not
 renamed cannot be read

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 08db1ff..8c95e3b 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -340,7 +340,7 @@ pub fn refactor_paths_for_tag_tree(
                 Ok(n) => n,
                 Err(e) => {
                     let mut l = context.results.lock().unwrap();
-                    l.get_mut(tag).unwrap().errors.push(format!("Can't open {tag}: {e}"));
+                    l.entry(tag.clone()).or_default().errors.push(format!("Can't open {tag}: {e}"));
                     continue;
                 }
             };
-- 
2.43.0


From 2d64519abaa73e1d83a85e52c4dcb37c0cd4682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:59 +0000
Subject: [PATCH 30/71] fix: undoing a failed rename crashed when the old
 directory was already removed

---
 src/ringhopper/src/tag/dependency.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 8c95e3b..67832e2 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -279,8 +279,12 @@ pub fn refactor_paths_for_tag_tree(
         }
 
         if undo_history.len() != tags_to_rename.len() {
-            for i in undo_history {
-                std::fs::rename(&i.1, &i.0).unwrap();
+            for (old, new) in undo_history.into_iter().rev() {
+                // the directory was removed if this was the last file in it
+                let undone = old.parent().map(std::fs::create_dir_all).unwrap_or(Ok(())).and_then(|_| std::fs::rename(&new, &old));
+                if let Err(e) = undone {
+                    return Err((Error::Other(format!("Filesystem errors occurred, and {} could not be moved back to {}: {e}", new.display(), old.display())), results));
+                }
             }
             return Err((Error::Other("Filesystem errors occurred".to_owned()), results));
         }
-- 
2.43.0


From 51803f0338831fbff7fb941cb336b8e007577918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 31/71] fix: redirecting references could redirect the same
 reference again

---
 src/ringhopper/src/tag/dependency.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 67832e2..9937633 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -352,11 +352,10 @@ pub fn refactor_paths_for_tag_tree(
 
             let mut changes_made = false;
             for_each_dependency_mut(tag_to_mutate.as_mut_dynamic(), true, |_, r| {
-                for (old_path, new_path) in &context.tags_to_rename {
-                    if r.path() == Some(old_path) {
-                        *r = TagReference::Set(new_path.to_owned());
-                        changes_made = true;
-                    }
+                let renamed = context.tags_to_rename.iter().find(|(old_path, _)| r.path() == Some(old_path));
+                if let Some((_, new_path)) = renamed {
+                    *r = TagReference::Set(new_path.to_owned());
+                    changes_made = true;
                 }
             });
 
-- 
2.43.0


From 551bd27b6751c3386b939cbc42d9c1026e0b2d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:39 +0000
Subject: [PATCH 32/71] fix: compare tags holding NaN as equal to their copies

---
 src/ringhopper/src/tag/compare.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/compare.rs b/src/ringhopper/src/tag/compare.rs
index bf0fb8c..ed4cbcb 100644
--- a/src/ringhopper/src/tag/compare.rs
+++ b/src/ringhopper/src/tag/compare.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::fmt::{Debug, Display};
 use crc64::crc64;
 use primitives::dynamic::{DynamicEnum, DynamicTagData, DynamicTagDataArray, DynamicTagDataType, SimplePrimitiveType};
 use primitives::primitive::{Address, Angle, BSPVertexData, ColorARGBFloat, ColorARGBInt, ColorARGBIntBytes, ColorRGBFloat, CompressedFloat, CompressedVector2D, CompressedVector3D, Data, Euler2D, Euler3D, FileData, ID, Index, Matrix3x3, Plane2D, Plane3D, Quaternion, Rectangle, ScenarioScriptNodeValue, String32, TagGroup, TagReference, UTF16String, Vector2D, Vector2DInt, Vector3D};
@@ -149,8 +149,14 @@ fn compare_tag_data<T: DynamicTagData + ?Sized>(first: &T, second: &T, path: &mu
     }
 }
 
-fn compare_primitive<T: PartialEq + Display>(first: &T, second: &T, path: &mut String, comparison: &mut Context, depth: usize) {
+fn compare_primitive<T: PartialEq + Display + Debug>(first: &T, second: &T, path: &mut String, comparison: &mut Context, depth: usize) {
     if first != second {
+        // NaN is not equal to itself, but a value that has NaN in it is not different from a copy of it.
+        #[allow(clippy::eq_op)]
+        if first != first && format!("{first:?}") == format!("{second:?}") {
+            return;
+        }
+
         comparison.differences.push(TagComparisonDifference {
             depth,
             path: path[1..].to_owned(),
-- 
2.43.0


From 34eaeb570b5a126bcb08fb308053fa3dea3779a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 33/71] fix: model tags with bad shader or centroid node
 indices were not refused

---
 src/ringhopper/src/tag/model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 916fbe4..e889fc9 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -218,6 +218,7 @@ impl ModelFunctions for Model {
         check_base_model(self)?;
         for geometry in &self.geometries {
             for part in &geometry.parts {
+                check_base_part(self, &part)?;
                 check_indices_for_part(self, &part)?;
                 if part.flags.zoner {
                     return Err(Error::InvalidTagData("corrupted model: zoner is set on a tag that does not support local nodes".to_string()))
-- 
2.43.0


From 7d884cb8a239ca1c90ea6499ff2ae08f0f91754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 34/71] fix: out-of-bounds node indices turned into other nodes
 when compressing model vertices

---
 src/ringhopper/src/tag/model.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index e889fc9..9a52c33 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -120,6 +120,20 @@ macro_rules! fix_vertices {
     }};
 }
 
+/// Check that all node indices in the uncompressed vertices (even ones out of bounds) can be stored in a compressed vertex.
+macro_rules! node_indices_fit_compressed_vertices {
+    ($model:expr) => {
+        $model
+            .geometries
+            .items
+            .iter()
+            .flat_map(|g| &g.parts)
+            .flat_map(|p| &p.get_model_part().uncompressed_vertices)
+            .flat_map(|v| [v.node0_index, v.node1_index])
+            .all(|n| n.map(|n| (n as usize) < MAX_NODES_FOR_COMPRESSED_VERTICES).unwrap_or(true))
+    };
+}
+
 #[allow(dead_code)]
 pub(crate) trait ModelPartGet {
     /// Get the base model part.
@@ -275,7 +289,7 @@ impl ModelFunctions for Model {
         flip_lod_cutoffs(&mut self.detail_cutoff)
     }
     fn supports_compressed_vertices(&mut self) -> bool {
-        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES
+        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES && node_indices_fit_compressed_vertices!(self)
     }
 }
 
@@ -404,7 +418,9 @@ impl ModelFunctions for GBXModel {
     }
 
     fn supports_compressed_vertices(&mut self) -> bool {
-        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES && !self.flags.parts_have_local_nodes
+        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES
+            && !self.flags.parts_have_local_nodes
+            && node_indices_fit_compressed_vertices!(self)
     }
 }
 
-- 
2.43.0


From b509d22d449d31da39513ead356608a47ce93d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 35/71] fix: normalizing a vector with infinite components
 produced NaN

---
 src/ringhopper-primitives/src/primitive/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index cdc7a1d..32d965d 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -40,7 +40,7 @@ pub trait Vector: Sized + Copy + Clone {
     /// Normalize the vector into the given unit.
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
-        if magnitude_sq == 0.0 {
+        if magnitude_sq == 0.0 || !magnitude_sq.is_finite() {
             return Self::one().scale(unit);
         }
 
-- 
2.43.0


From a48906049fb98e43716462b4bb0950a3801f0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:24 +0000
Subject: [PATCH 36/71] fix: script strings with semicolons or line breaks were
 not quoted when decompiled

---
 src/ringhopper/src/tag/scenario.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 0058455..5c61ab5 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -374,7 +374,7 @@ fn sanitize(mut string: Cow<str>) -> Cow<str> {
     if string.contains("\"") {
         string = Cow::Owned(string.replace("\"", "\\\""));
     }
-    if string.contains("(") || string.contains(")") || string.contains(" ") {
+    if string.contains(|c: char| c == '(' || c == ')' || c == ';' || c.is_whitespace()) {
         string = Cow::Owned(format!("\"{string}\""));
     }
     string
-- 
2.43.0


From cabc457424312a6b9d53b73be6ef340204099bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:32 +0000
Subject: [PATCH 37/71] fix: decompiling scripts with shared or deeply nested
 nodes took forever or overflowed the stack

---
 src/ringhopper/src/tag/scenario.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 5c61ab5..2cfafd4 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -440,6 +440,9 @@ fn get_string_data_for_node<'a>(scenario: &'a Scenario, node: &ScenarioScriptNod
     }
 }
 
+/// Deepest supported nesting of function calls in a script.
+const MAX_SCRIPT_DEPTH: usize = 512;
+
 fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo: &mut Vec<(Index, usize)>) -> RinghopperResult<()> {
     todo.clear();
 
@@ -447,9 +450,12 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
     let iteration_limit = node_count + 32;
     todo.push((node.index(), 0));
 
+    // Every node belongs to one expression, so there is no way to go through more nodes than there are
+    let mut iterated_nodes = 0usize;
+
     while let Some((index, depth)) = todo.pop() {
-        if depth > iteration_limit {
-            return Err(Error::InvalidTagData(format!("Depth exceeds actual node count ({node_count}); infinite recursion detected!")))
+        if depth > MAX_SCRIPT_DEPTH {
+            return Err(Error::InvalidTagData(format!("Depth exceeds maximum ({MAX_SCRIPT_DEPTH}); infinite recursion detected!")))
         }
 
         let index = match index {
@@ -461,12 +467,11 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
         }
 
         // Loop until we are at the end of the block, adding function calls to the stack
-        let mut iterated_nodes = 0usize;
         let mut node = &extracted_nodes[index];
         loop {
             iterated_nodes += 1;
             if iterated_nodes > iteration_limit {
-                return Err(Error::InvalidTagData(format!("Block length exceeds actual node count ({node_count}); infinite loop detected!")));
+                return Err(Error::InvalidTagData(format!("Expression length exceeds actual node count ({node_count}); infinite loop detected!")));
             }
 
             if !node.flags.is_primitive {
-- 
2.43.0


From 815269539b5b29fbbb6c3b435cd30462204360da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 38/71] fix: honour shifted_by_one on fields when reading from
 maps

---
 src/ringhopper-structs-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index daa9279..fd632c7 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -506,7 +506,7 @@ impl ToTokenStream for Struct {
                     let field_name = &fields_with_names[i];
                     let field_type = &fields_with_types[i];
 
-                    let read_map_code = if self.flags.shifted_by_one {
+                    let read_map_code = if self.fields[i].flags.shifted_by_one {
                         "(u16::read_from_map(map, _pos, domain_type)?.wrapping_add(1)).try_into()?".to_owned()
                     }
                     else if field_type == "BSPVertexData" {
-- 
2.43.0


From 3e197b1fe40e37a7a7502ed04563aeab63647656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 39/71] fix: fall back to tag data for addresses before the BSP
 domain

---
 src/ringhopper-primitives/src/map.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index 761deec..b7d4ec9 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -160,10 +160,9 @@ pub trait Map {
         size: usize
     ) -> Option<&[u8]> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let end = offset.checked_add(size)?;
-
-        let data = domain_start.get(offset..end);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..offset.checked_add(size)?));
         if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             self.get_data_at_address(address, &DomainType::TagData, size)
@@ -188,8 +187,9 @@ pub trait Map {
         domain: &DomainType
     ) -> Option<&str> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let data = domain_start.get(offset..);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..));
         let data = if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             return self.get_c_string_at_address(address, &DomainType::TagData)
-- 
2.43.0


From aa95cc58776f23daa28097e03d68d4b51f97eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 40/71] fix: do not allocate resource table space for an
 unchecked count

---
 src/ringhopper/src/map/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index 0e37130..f3f7fff 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -26,7 +26,7 @@ impl ResourceMap {
 
         let mut current_offset = header.array_offset as usize;
         let array_len = header.count as usize;
-        let mut resources = Vec::with_capacity(array_len);
+        let mut resources = Vec::new();
         let resource_len = ResourceMapResource::simple_size();
 
         for i in 0..array_len {
-- 
2.43.0


From 588afdff460eaf375dddc794eab6ac9a13441f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 41/71] fix: sample_rate_from_u32 did not recognise any sample
 rate

---
 src/ringhopper/src/tag/sound.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/sound.rs b/src/ringhopper/src/tag/sound.rs
index 9b340bd..d2e0140 100644
--- a/src/ringhopper/src/tag/sound.rs
+++ b/src/ringhopper/src/tag/sound.rs
@@ -166,8 +166,8 @@ pub fn sample_rate_to_u32(sample_rate: SoundSampleRate) -> u32 {
 /// Get a [`SoundChannelCount`] from its equivalent numerical value.
 pub fn sample_rate_from_u32(sample_rate: u32) -> Option<SoundSampleRate> {
     match sample_rate {
-        1 => Some(SoundSampleRate::_22050Hz),
-        2 => Some(SoundSampleRate::_44100Hz),
+        22050 => Some(SoundSampleRate::_22050Hz),
+        44100 => Some(SoundSampleRate::_44100Hz),
         _ => None
     }
 }
-- 
2.43.0


From d5267345924f6a5bda6d8394475deff1b34d1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 42/71] fix: do not panic on sound tags with more than 65535
 permutations

---
 src/ringhopper/src/tag/verify/sound.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ringhopper/src/tag/verify/sound.rs b/src/ringhopper/src/tag/verify/sound.rs
index fcef93e..c7e8fc9 100644
--- a/src/ringhopper/src/tag/verify/sound.rs
+++ b/src/ringhopper/src/tag/verify/sound.rs
@@ -45,6 +45,11 @@ pub fn sound_is_playable(sound: &Sound) -> bool {
 }
 
 fn check_errors_with_sound(sound: &Sound, verify_result: &mut TagResult) {
+    if has_too_many_permutations(sound) {
+        verify_result.errors.push("Sound tag contains a pitch range with too many permutations to index".to_owned());
+        return;
+    }
+
     verify_split_permutation_flag_should_be_set_but_is_not(sound, verify_result);
     verify_sound_permutation_indices(sound, verify_result);
     verify_sound_formats(sound, verify_result);
@@ -76,8 +81,17 @@ fn verify_split_permutation_flag_should_be_set_but_is_not(sound: &Sound, verify_
 }
 
 
+/// Return `true` if any pitch range has more permutations than can be counted with a 16-bit integer.
+fn has_too_many_permutations(sound: &Sound) -> bool {
+    sound.pitch_ranges.items.iter().any(|p| u16::try_from(p.permutations.items.len()).is_err())
+}
+
 /// Return `true` if the sound tag is fucked up beyond all repair.
 pub(crate) fn sound_tag_is_fubar(sound: &Sound) -> bool {
+    if has_too_many_permutations(sound) {
+        return true;
+    }
+
     let mut result = TagResult::default();
 
     verify_sound_block_size(sound, &mut result);
-- 
2.43.0


From 874ca9e84aafd742697bc8f778ce37d059c6f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 43/71] fix: refuse a map whose scenario tag ID is invalid
 instead of panicking

---
 src/ringhopper/src/map/gearbox.rs | 2 +-
 src/ringhopper/src/map/util.rs    | 6 ++++--
 src/ringhopper/src/map/xbox.rs    | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 25b29fc..3fbbbd6 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -95,7 +95,7 @@ impl GearboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, map.scenario_tag, &map.tags)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index 8fc94e4..b8ff52d 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -10,8 +10,10 @@ use crate::map::{BSPDomain, header};
 use crate::map::header::ParsedCacheFileHeader;
 
 /// Get all scenario and BSP data for a map.
-pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
-    let scenario = map.get_scenario_tag();
+pub fn load_scenario_info<M: Map>(map: &M, scenario_id: ID, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
+    let scenario = map
+        .get_tag_by_id(scenario_id)
+        .ok_or_else(|| Error::MapParseFailure("scenario tag ID does not refer to a tag in the map".to_string()))?;
     if scenario.tag_path.group() != TagGroup::Scenario {
         return Err(Error::MapParseFailure(format!("scenario tag is marked as a {} tag; likely protected/corrupted map", scenario.tag_path.group())))
     }
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 995688d..620aefd 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -68,7 +68,7 @@ impl XboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, map.scenario_tag, &map.tags)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
-- 
2.43.0


From 85864cfde941c330444191940a10b201f83091b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 44/71] fix: refuse a map with a BSP that is not in the tag
 array instead of panicking

---
 src/ringhopper/src/map/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index b8ff52d..f16398d 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -156,7 +156,11 @@ pub fn fixup_bsp_addresses(tags: &mut [Option<Tag>], bsps: &[BSPDomain], ids: &H
     for i in 0..bsps.len() {
         let bsp = &bsps[i];
         if let Some(p) = &bsp.path {
-            let tag = tags[ids[p].index().unwrap() as usize].as_mut().unwrap();
+            let tag = ids
+                .get(p)
+                .and_then(|id| id.index())
+                .and_then(|index| tags.get_mut(index as usize)?.as_mut())
+                .ok_or_else(|| Error::MapParseFailure(format!("BSP tag {p} is not in the map")))?;
             tag.address = bsp.tag_address;
             tag.domain = DomainType::BSP(i);
         }
-- 
2.43.0


From 4895d0a4ad17519d806df9f0c2d7703804040031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 45/71] fix: refuse a map with an unreadable compiled BSP
 header instead of panicking

---
 src/ringhopper/src/map/gearbox.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 3fbbbd6..69e7210 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -161,8 +161,7 @@ impl GearboxCacheFile {
         self.bsp_vertex_data.reserve(bsp_count);
 
         for bsp_index in 0..bsp_count {
-            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))
-                .expect("should have the bsp here");
+            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))?;
 
             let start = bsp_data.lightmap_vertices as usize;
             let end = start.add_overflow_checked(bsp_data.lightmap_vertex_size as usize)?;
-- 
2.43.0


From b3378c5b24594de4282f5647bd13c8d4582e6849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 46/71] fix: ignore detail object palette entries of another
 tag group instead of panicking

---
 src/ringhopper/src/map/extract.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index ccbce26..3cb2145 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -243,6 +243,10 @@ pub fn fix_scenario_structure_bsp_tag<M: Map>(bsp: &mut ScenarioStructureBSP, sc
             continue // tool.exe will just not apply an offset
         };
 
+        if tag.tag_path.group() != TagGroup::DetailObjectCollection {
+            continue
+        }
+
         let offset = map.extract_tag(&tag.tag_path)?
             .as_any()
             .downcast_ref::<DetailObjectCollection>()
-- 
2.43.0


From 47f7e87b652c60e171e6227d231136e319e16725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 47/71] fix: do not allocate BSP vertex data before checking
 that it exists

---
 src/ringhopper-primitives/src/primitive/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index f48debb..a777e22 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -445,7 +445,7 @@ impl BSPVertexData {
         let rendered_size = rendered_count.mul_overflow_checked(if compressed { 32 } else { 56 })?;
         let lightmap_size = lightmap_count.mul_overflow_checked(if compressed { 8 } else { 20 })?;
         let total_size = rendered_size.add_overflow_checked(lightmap_size)?;
-        let mut data: Vec<u8> = Vec::with_capacity(total_size);
+        let mut data: Vec<u8> = Vec::new();
 
         if !map.get_engine().external_bsps || p_address != 0 {
             match map.get_data_at_address(p_address, domain_type, total_size) {
-- 
2.43.0


From 423d47c1a9ada4f1985f23fe9dac72f43e0f56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 48/71] fix: do not allocate bitmap pixel data before checking
 that it exists

---
 src/ringhopper/src/map/extract.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index 3cb2145..1677e67 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -377,19 +377,11 @@ pub fn fix_bitmap_tag<M: Map>(tag: &mut Bitmap, map: &M) -> RinghopperResult<()>
         }
     }
 
-    let total_bitmap_data = tag
-        .bitmap_data
-        .items
-        .iter()
-        .map(|b| Ok(b.pixel_data_size as usize))
-        .reduce(|a, b| {
-            a.and_then(|size| b.and_then(|size2| size.add_overflow_checked(size2)))
-        });
-    let new_data = match total_bitmap_data {
-        Some(n) => n?,
-        None => return Ok(())
-    };
-    let mut processed_data: Vec<u8> = Vec::with_capacity(new_data);
+    if tag.bitmap_data.items.is_empty() {
+        return Ok(())
+    }
+
+    let mut processed_data: Vec<u8> = Vec::new();
 
     let engine = map.get_engine();
     let engine_name = engine.name;
-- 
2.43.0


From 22882c22b1fde6f6c6bd79ff917c6d7ec1650cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 49/71] fix: refuse compressed maps that do not match the size
 in their header

---
 src/ringhopper/src/map.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index a4ddb4f..59eb6ab 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use std::path::Path;
 use std::sync::Arc;
 
-use flate2::FlushDecompress;
+use flate2::{FlushDecompress, Status};
 
 use definitions::{read_any_tag_from_map, Scenario, ScenarioType};
 use primitives::engine::{Engine, EngineCacheParser, EngineCompressionType};
@@ -193,18 +193,35 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         return Err(Error::MapParseFailure("decompression failed: bad padding size in header - larger than uncompressed data".to_owned()))
     }
 
-    let mut result = Vec::with_capacity(header.decompressed_size);
-    result.extend_from_slice(&data[..compressed_start]);
-    result.resize(header.decompressed_size, 0);
-
+    let mut result = data[..compressed_start].to_vec();
     let compressed_data = &data[compressed_start..compressed_end];
     match engine.compression_type {
         EngineCompressionType::Uncompressed => unreachable!(),
         EngineCompressionType::Deflate => {
             let mut decompressor = flate2::Decompress::new(true);
-            decompressor
-                .decompress(compressed_data, &mut result[compressed_start..], FlushDecompress::Finish)
-                .map_err(|e| Error::MapParseFailure(format!("decompression failed: flate2 error: {e}")))?;
+            loop {
+                let (total_in, total_out) = (decompressor.total_in(), decompressor.total_out());
+
+                // The size in the header is untrusted, so only allocate as much as the data needs
+                result.reserve(0x10000);
+                let status = decompressor
+                    .decompress_vec(&compressed_data[total_in as usize..], &mut result, FlushDecompress::None)
+                    .map_err(|e| Error::MapParseFailure(format!("decompression failed: flate2 error: {e}")))?;
+
+                if status == Status::StreamEnd {
+                    break
+                }
+                if (total_in, total_out) == (decompressor.total_in(), decompressor.total_out()) {
+                    return Err(Error::MapParseFailure("decompression failed: compressed data is incomplete".to_owned()))
+                }
+                if result.len() > header.decompressed_size {
+                    break
+                }
+            }
+
+            if result.len() != header.decompressed_size {
+                return Err(Error::MapParseFailure(format!("decompression failed: the size in the header ({} bytes) does not match the data", header.decompressed_size)))
+            }
             Ok(result)
         }
     }
-- 
2.43.0


From 3b5ab0c7d4dda842ab916708f5781a37000f1cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 50/71] fix: verifying tags with references to tags of another
 group panicked or deadlocked

---
 src/ringhopper/src/tag/verify.rs                 | 10 +++++++++-
 src/ringhopper/src/tag/verify/hud_interface.rs   | 14 +++++++-------
 src/ringhopper/src/tag/verify/object.rs          | 12 ++++++------
 src/ringhopper/src/tag/verify/particle_system.rs |  4 ++--
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 52880e9..1e638f9 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -67,6 +67,9 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         let hud_globals_path = n.hud_globals
             .path()
             .ok_or_else(|| Error::InvalidTagData(format!("{globals_path} does not have HUD globals set for interface bitmaps #0")))?;
+        if hud_globals_path.group() != TagGroup::HUDGlobals {
+            return Err(Error::InvalidTagData(format!("{globals_path} has {hud_globals_path} set as HUD globals for interface bitmaps #0")))
+        }
         hud_globals_ref = tag_tree.open_tag_shared(hud_globals_path)?;
     }
     else {
@@ -203,8 +206,13 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
         Some(is_ok)
     }
 
-    fn open_tag_reference_maybe(&self, tag_reference: &TagReference, result: &mut TagResult, must_be_set_error: Option<&'static str>) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
+    /// Open and verify the referenced tag.
+    ///
+    /// Returns `None` if the reference is null, if the tag has errors, or if the tag is not one of the given groups (in
+    /// which case it is not opened, since this is reported when verifying dependencies).
+    fn open_tag_reference_maybe(&self, tag_reference: &TagReference, groups: &[TagGroup], result: &mut TagResult, must_be_set_error: Option<&'static str>) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
         match tag_reference {
+            TagReference::Set(tp) if !groups.contains(&tp.group()) => None,
             TagReference::Set(tp) => self.open_tag_maybe(tp, result),
             TagReference::Null(_) => {
                 if let Some(n) = must_be_set_error {
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index ededa66..a383763 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -2,7 +2,7 @@ use std::collections::HashSet;
 
 use definitions::WeaponHUDInterface;
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::{TagPath, TagReference};
+use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{Bitmap, GrenadeHUDInterface, HUDGlobals, HUDInterfaceMeterElement, HUDInterfaceStaticElement, UnicodeStringList, UnitHUDInterface};
 use crate::tag::tree::TagTree;
@@ -17,7 +17,7 @@ pub fn verify_weapon_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dyn
     macro_rules! check_sequence_index_for_2d_thing {
         ($outer_reflexive:tt, $outer_reflexive_bitmap:tt, $inner_reflexive:tt, $name:expr) => {
             for (oi, outer) in ziperator!(weapon_hud_interface.$outer_reflexive) {
-                let bitmap = match context.open_tag_reference_maybe(&outer.$outer_reflexive_bitmap, result, None) {
+                let bitmap = match context.open_tag_reference_maybe(&outer.$outer_reflexive_bitmap, &[TagGroup::Bitmap], result, None) {
                     Some(n) => n,
                     None => continue
                 };
@@ -76,7 +76,7 @@ pub fn verify_grenade_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dy
     check_static_element(&grenade_hud_interface.background, context, result, || "Background".to_string());
     check_static_element(&grenade_hud_interface.total_grenades_background, context, result, || "Total grenades background".to_string());
 
-    match context.open_tag_reference_maybe(&grenade_hud_interface.total_grenades_overlays.bitmap, result, None) {
+    match context.open_tag_reference_maybe(&grenade_hud_interface.total_grenades_overlays.bitmap, &[TagGroup::Bitmap], result, None) {
         Some(bitmap) => {
             let mut bitmap = bitmap.lock().unwrap();
             let bitmap = bitmap.as_any_mut().downcast_mut::<Bitmap>().unwrap();
@@ -95,7 +95,7 @@ pub fn verify_grenade_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dy
 pub fn verify_hud_globals<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let hud_globals: &HUDGlobals = tag.as_any().downcast_ref().unwrap();
 
-    match context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
+    match context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, &[TagGroup::UnicodeStringList], result, None) {
         Some(item_message_text) => {
             let mut item_message_text = item_message_text.lock().unwrap();
             let item_message_text = item_message_text.as_any_mut().downcast_mut::<UnicodeStringList>().unwrap();
@@ -122,7 +122,7 @@ pub fn verify_hud_globals<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryT
 }
 
 fn check_static_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String>(element: &HUDInterfaceStaticElement, context: &ScenarioContext<T>, result: &mut TagResult, name: N) {
-    let bitmap = match context.open_tag_reference_maybe(&element.interface_bitmap, result, None) {
+    let bitmap = match context.open_tag_reference_maybe(&element.interface_bitmap, &[TagGroup::Bitmap], result, None) {
         Some(n) => n,
         None => return
     };
@@ -135,7 +135,7 @@ fn check_static_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> Strin
 }
 
 fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String>(element: &HUDInterfaceMeterElement, context: &ScenarioContext<T>, result: &mut TagResult, name: N) {
-    let bitmap = match context.open_tag_reference_maybe(&element.meter_bitmap, result, None) {
+    let bitmap = match context.open_tag_reference_maybe(&element.meter_bitmap, &[TagGroup::Bitmap], result, None) {
         Some(n) => n,
         None => return
     };
@@ -157,7 +157,7 @@ fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDI
             break
         }
 
-        child_ref = match context.open_tag_reference_maybe(&child_ref, result, None) {
+        child_ref = match context.open_tag_reference_maybe(&child_ref, &[TagGroup::WeaponHUDInterface], result, None) {
             Some(n) => {
                 let lock = n.lock().unwrap();
                 let child = lock.as_any().downcast_ref::<WeaponHUDInterface>().unwrap();
diff --git a/src/ringhopper/src/tag/verify/object.rs b/src/ringhopper/src/tag/verify/object.rs
index b6a3c9c..4b5fc2f 100644
--- a/src/ringhopper/src/tag/verify/object.rs
+++ b/src/ringhopper/src/tag/verify/object.rs
@@ -1,6 +1,6 @@
 use definitions::{Bitmap, Weapon, WeaponHUDInterface};
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::TagPath;
+use primitives::primitive::{TagGroup, TagPath};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{GBXModel, HUDGlobals, Model, ModelAnimations, UnicodeStringList, WeaponHUDInterfaceCrosshairType};
 use crate::tag::object::downcast_base_object;
@@ -14,7 +14,7 @@ const IGNORED_MODEL_NODE_LIST_CHECKSUM: i32 = 0;
 pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let object = downcast_base_object(tag).unwrap();
 
-    let model = context.open_tag_reference_maybe(&object.model, result, None);
+    let model = context.open_tag_reference_maybe(&object.model, &[TagGroup::Model, TagGroup::GBXModel], result, None);
 
     if object.model.is_null() {
         if !object.animation_graph.is_null() {
@@ -33,7 +33,7 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
             ($group:ty) => {
                 if let Some(model) = model.as_any().downcast_ref::<$group>() {
                     if model.node_list_checksum != IGNORED_MODEL_NODE_LIST_CHECKSUM {
-                        if let Some(anim) = context.open_tag_reference_maybe(&object.animation_graph, result, None) {
+                        if let Some(anim) = context.open_tag_reference_maybe(&object.animation_graph, &[TagGroup::ModelAnimations], result, None) {
                             let anim = anim.lock().unwrap();
                             let anim = anim.as_any().downcast_ref::<ModelAnimations>().unwrap();
 
@@ -59,7 +59,7 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
     let hud_globals_lock = context.hud_globals.clone();
     let hud_globals = hud_globals_lock.lock().unwrap();
     let hud_globals = hud_globals.as_any().downcast_ref::<HUDGlobals>().unwrap();
-    if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
+    if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, &[TagGroup::UnicodeStringList], result, None) {
         let item_message_text = r.lock().unwrap();
         let index = object.hud_text_message_index;
         let max = item_message_text.as_any().downcast_ref::<UnicodeStringList>().unwrap().strings.len();
@@ -74,7 +74,7 @@ pub fn verify_weapon<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
 
     let zoom_levels = weapon.zoom_levels as usize;
     if zoom_levels > 0 {
-        if let Some(r) = context.open_tag_reference_maybe(&weapon.hud_interface, result, None) {
+        if let Some(r) = context.open_tag_reference_maybe(&weapon.hud_interface, &[TagGroup::WeaponHUDInterface], result, None) {
             let hud = r.lock().unwrap();
             let weapon_hud_interface: &WeaponHUDInterface = hud.as_any().downcast_ref().unwrap();
             for (crosshair_index, crosshair) in (0..weapon_hud_interface.crosshairs.len()).zip(&weapon_hud_interface.crosshairs) {
@@ -82,7 +82,7 @@ pub fn verify_weapon<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
                     continue
                 }
 
-                let b = match context.open_tag_reference_maybe(&crosshair.crosshair_bitmap, result, None) {
+                let b = match context.open_tag_reference_maybe(&crosshair.crosshair_bitmap, &[TagGroup::Bitmap], result, None) {
                     Some(n) => n,
                     None => continue
                 };
diff --git a/src/ringhopper/src/tag/verify/particle_system.rs b/src/ringhopper/src/tag/verify/particle_system.rs
index d7c7fb8..7da42b0 100644
--- a/src/ringhopper/src/tag/verify/particle_system.rs
+++ b/src/ringhopper/src/tag/verify/particle_system.rs
@@ -1,4 +1,4 @@
-use primitives::{primitive::TagPath, tag::PrimaryTagStructDyn};
+use primitives::{primitive::{TagGroup, TagPath}, tag::PrimaryTagStructDyn};
 use ringhopper_structs::{Bitmap, ParticleSystem, ParticleSystemComplexSpriteRenderMode};
 
 use crate::tag::tree::TagTree;
@@ -20,7 +20,7 @@ pub fn verify_particle_system<T: TagTree + Send + Sync + 'static>(tag: &dyn Prim
                 None => continue // TODO: check if this is OK
             };
 
-            let bitmap = match context.open_tag_reference_maybe(&state.bitmaps, result, None) {
+            let bitmap = match context.open_tag_reference_maybe(&state.bitmaps, &[TagGroup::Bitmap], result, None) {
                 Some(n) => n,
                 None => continue // TODO: check if this is OK
             };
-- 
2.43.0


From 78923272711916f72f2a0e6f3316f5f8d69b18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 51/71] fix: verifying weapon HUD interfaces that are their own
 child deadlocked

---
 src/ringhopper/src/tag/result.rs              |  5 ++++
 src/ringhopper/src/tag/verify.rs              | 12 ++++++++-
 .../src/tag/verify/hud_interface.rs           | 26 +++++++------------
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/ringhopper/src/tag/result.rs b/src/ringhopper/src/tag/result.rs
index aaee43c..2836752 100644
--- a/src/ringhopper/src/tag/result.rs
+++ b/src/ringhopper/src/tag/result.rs
@@ -31,5 +31,10 @@ pub(crate) struct ScenarioContext<T: TagTree + Send + Sync> {
     pub scenario_type: ScenarioType,
     pub engine: &'static Engine,
     pub tag_tree: Arc<T>,
+
+    /// Child of each weapon HUD interface that has one.
+    ///
+    /// These are read ahead of time, because following them while verifying would lock tags that are being verified.
+    pub child_huds: HashMap<TagPath, TagPath>,
     pub results: Mutex<HashMap<TagPath, TagResult>>
 }
diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 1e638f9..369de11 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -20,7 +20,7 @@ use primitives::error::{Error, RinghopperResult};
 use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_engines::Engine;
-use ringhopper_structs::{Globals, Scenario, ScenarioType};
+use ringhopper_structs::{Globals, Scenario, ScenarioType, WeaponHUDInterface};
 use crate::tag::object::is_object;
 use crate::tag::result::*;
 use crate::tag::tree::TagTree;
@@ -84,6 +84,7 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         scenario_type: ScenarioType::Multiplayer,
         engine,
         tag_tree: Arc::new(tag_tree),
+        child_huds: HashMap::new(),
         results: Mutex::new(HashMap::new())
     };
 
@@ -91,6 +92,15 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         .map_err(|e| Error::Other(format!("Failed to query dependencies: {e}")))?;
     context.scenario_type = context.scenario.lock().unwrap().as_any().downcast_ref::<Scenario>().unwrap()._type;
 
+    for path in all_dependencies.iter().filter(|p| p.group() == TagGroup::WeaponHUDInterface) {
+        let hud = context.tag_tree.open_tag_shared(path)?;
+        let hud = hud.lock().unwrap();
+        let hud: &WeaponHUDInterface = hud.as_any().downcast_ref().unwrap();
+        if let Some(child) = hud.child_hud.path().filter(|c| c.group() == TagGroup::WeaponHUDInterface) {
+            context.child_huds.insert(path.to_owned(), child.to_owned());
+        }
+    }
+
     let mut v = Vec::with_capacity(all_dependencies.len());
     v.extend(all_dependencies.into_iter());
     let all_dependencies = Arc::new(v);
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index a383763..437bc2e 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -2,7 +2,7 @@ use std::collections::HashSet;
 
 use definitions::WeaponHUDInterface;
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::{TagGroup, TagPath, TagReference};
+use primitives::primitive::{TagGroup, TagPath};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{Bitmap, GrenadeHUDInterface, HUDGlobals, HUDInterfaceMeterElement, HUDInterfaceStaticElement, UnicodeStringList, UnitHUDInterface};
 use crate::tag::tree::TagTree;
@@ -148,22 +148,16 @@ fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String
 }
 
 fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDInterface, path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
-    let mut all_references = HashSet::new();
-    all_references.insert(path.to_owned());
-    let mut child_ref = base.child_hud.to_owned();
-    while let TagReference::Set(n) = &child_ref {
-        if all_references.contains(n) {
+    let mut all_references = HashSet::from([path]);
+    let mut next = path;
+    while let Some(n) = context.child_huds.get(next) {
+        if !all_references.insert(n) {
             result.errors.push(format!("Infinite loop detected (loop start found at {n})"));
-            break
-        }
-
-        child_ref = match context.open_tag_reference_maybe(&child_ref, &[TagGroup::WeaponHUDInterface], result, None) {
-            Some(n) => {
-                let lock = n.lock().unwrap();
-                let child = lock.as_any().downcast_ref::<WeaponHUDInterface>().unwrap();
-                child.child_hud.clone()
-            },
-            None => break // failed to load
+            return
         }
+        next = n;
     }
+
+    // There is no loop, so it is safe to wait for the child (and its children) to be verified
+    context.open_tag_reference_maybe(&base.child_hud, &[TagGroup::WeaponHUDInterface], result, None);
 }
-- 
2.43.0


From 0866adef8bf757e36afd719e12c47cce95e6f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 52/71] fix: missing detail object palette entries were never
 reported when verifying a BSP

---
 src/ringhopper/src/tag/verify/scenario_structure_bsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
index 6ffd795..c025a29 100644
--- a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
+++ b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
@@ -69,7 +69,7 @@ pub fn verify_scenario_structure_bsp<T: TagTree + Send + Sync + 'static>(tag: &d
                     .and_then(|r| r.path())
                     .and_then(|r| context.tag_tree.open_tag_shared(r).ok()) else {
                     let bit = 1 << bit_offset;
-                    if (complained_bitfield & bit) != 0 {
+                    if (complained_bitfield & bit) == 0 {
                         complained_bitfield |= bit;
                         result.errors.push(format!("Missing detail object collection palette #{bit_offset} in scenario tag"));
                     }
-- 
2.43.0


From defffc5078a8238a0d3e6a08a45eec3748eb6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 53/71] fix: tags in use by all threads at some point were not
 verified

---
 src/ringhopper/src/tag/verify.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 369de11..285572d 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -123,6 +123,12 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         t.join().expect("thread should be finished successfully");
     }
 
+    // Threads skip tags that are locked by another thread, so each of them may have skipped the same tag. Now that all
+    // of them are finished, verify anything that is left.
+    for path in all_dependencies.iter() {
+        context.verify_tag(path, false);
+    }
+
     Ok(Arc::into_inner(context).unwrap().results.into_inner().unwrap())
 }
 
-- 
2.43.0


From 8bfdaae554dddac95041e3870e516a9ba6f9012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 54/71] fix: bad numbers in bounds were neither reported nor
 repaired

---
 src/ringhopper-primitives/src/tag.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/tag.rs b/src/ringhopper-primitives/src/tag.rs
index bdf6e70..ed0437d 100644
--- a/src/ringhopper-primitives/src/tag.rs
+++ b/src/ringhopper-primitives/src/tag.rs
@@ -313,11 +313,13 @@ pub fn for_each_field<P: FnMut(Option<TagFieldMetadata>, &dyn DynamicTagData)>(d
     fn recursion<P: FnMut(Option<TagFieldMetadata>, &dyn DynamicTagData)>(data: &dyn DynamicTagData, predicate: &mut P) {
         for field_name in data.fields() {
             let field = data.get_field(field_name).unwrap();
-            predicate(data.get_metadata_for_field(field_name), field);
+            let metadata = data.get_metadata_for_field(field_name);
+            predicate(metadata, field);
 
             if let Some(arr) = field.as_array() {
                 for i in 0..arr.len() {
                     let item = arr.get_at_index(i).unwrap();
+                    predicate(metadata, item);
                     recursion(item, predicate);
                 }
             }
@@ -344,6 +346,7 @@ pub fn for_each_field_mut<P: FnMut(Option<TagFieldMetadata>, &mut dyn DynamicTag
             if let Some(arr) = field.as_array_mut() {
                 for i in 0..arr.len() {
                     let item = arr.get_at_index_mut(i).unwrap();
+                    predicate(metadata, item);
                     recursion(item, predicate, access_read_only_fields);
                 }
             }
-- 
2.43.0


From ae769a8524a2a87f93f978819bf7d502a52518a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 55/71] fix: a tag that was just verified could be taken for OK
 by other threads

---
 src/ringhopper/src/tag/verify.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 285572d..d98dbb1 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -206,20 +206,21 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
                     TagGroup::ScenarioStructureBSP => verify_scenario_structure_bsp(tag, path, self, &mut result),
                     _ => ()
                 }
+
+                // The tag must still be locked here; if it is not, another thread could take the reserved result for the
+                // actual one.
+                let is_ok = result.is_ok();
+                self.results.lock().unwrap().insert(path.to_owned(), result);
+                drop(lock);
+
+                Some(is_ok)
             },
             Err(e) => {
-                if self.reserve_tag_to_verify(path) != VerifyStatus::Unverified {
-                    return Some(false);
-                }
-                result.errors.push(format!("Failed to open tag: {e}"))
+                result.errors.push(format!("Failed to open tag: {e}"));
+                self.results.lock().unwrap().entry(path.to_owned()).or_insert(result);
+                Some(false)
             }
         }
-
-        let is_ok = result.is_ok();
-        let path = path.to_owned();
-        self.results.lock().unwrap().insert(path, result);
-
-        Some(is_ok)
     }
 
     /// Open and verify the referenced tag.
-- 
2.43.0


From 62cb6c398fc9661fd8385c4ca814ac736cb3b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 56/71] fix: verifying with a tag tree that does not share tags
 depended on the schedule

---
 src/ringhopper/src/tag/result.rs              | 16 +++++++++++++++-
 src/ringhopper/src/tag/verify.rs              | 19 +++++++++++--------
 .../src/tag/verify/scenario_structure_bsp.rs  |  2 +-
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/ringhopper/src/tag/result.rs b/src/ringhopper/src/tag/result.rs
index 2836752..253ba54 100644
--- a/src/ringhopper/src/tag/result.rs
+++ b/src/ringhopper/src/tag/result.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
 use definitions::ScenarioType;
 use primitives::engine::Engine;
+use primitives::error::RinghopperResult;
 use primitives::primitive::TagPath;
 use primitives::tag::PrimaryTagStructDyn;
 use crate::tag::tree::TagTree;
@@ -36,5 +37,18 @@ pub(crate) struct ScenarioContext<T: TagTree + Send + Sync> {
     ///
     /// These are read ahead of time, because following them while verifying would lock tags that are being verified.
     pub child_huds: HashMap<TagPath, TagPath>,
-    pub results: Mutex<HashMap<TagPath, TagResult>>
+    pub results: Mutex<HashMap<TagPath, TagResult>>,
+
+    /// Every tag opened so far.
+    ///
+    /// Verification relies on each tag being shared by everything that opens it, but not all tag trees do this.
+    pub opened: Mutex<HashMap<TagPath, Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>>>
+}
+
+impl<T: TagTree + Send + Sync> ScenarioContext<T> {
+    /// Open the tag, always returning the same instance for the same path.
+    pub fn open_tag(&self, path: &TagPath) -> RinghopperResult<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
+        let tag = self.tag_tree.open_tag_shared(path)?;
+        Ok(self.opened.lock().unwrap().entry(path.to_owned()).or_insert(tag).clone())
+    }
 }
diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index d98dbb1..50b981d 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -61,16 +61,18 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
 
     let globals_tag_lock = globals_ref.lock().unwrap();
     let globals_tag = globals_tag_lock.as_any().downcast_ref::<Globals>().unwrap();
+    let hud_globals_path;
     let hud_globals_ref;
 
     if let Some(n) = globals_tag.interface_bitmaps.items.first() {
-        let hud_globals_path = n.hud_globals
+        hud_globals_path = n.hud_globals
             .path()
+            .cloned()
             .ok_or_else(|| Error::InvalidTagData(format!("{globals_path} does not have HUD globals set for interface bitmaps #0")))?;
         if hud_globals_path.group() != TagGroup::HUDGlobals {
             return Err(Error::InvalidTagData(format!("{globals_path} has {hud_globals_path} set as HUD globals for interface bitmaps #0")))
         }
-        hud_globals_ref = tag_tree.open_tag_shared(hud_globals_path)?;
+        hud_globals_ref = tag_tree.open_tag_shared(&hud_globals_path)?;
     }
     else {
         return Err(Error::InvalidTagData(format!("{globals_path} is missing an interface bitmaps reflexive")))
@@ -79,13 +81,14 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
     drop(globals_tag_lock);
 
     let mut context = ScenarioContext {
-        scenario: scenario_ref,
-        hud_globals: hud_globals_ref,
+        scenario: scenario_ref.clone(),
+        hud_globals: hud_globals_ref.clone(),
         scenario_type: ScenarioType::Multiplayer,
         engine,
         tag_tree: Arc::new(tag_tree),
         child_huds: HashMap::new(),
-        results: Mutex::new(HashMap::new())
+        results: Mutex::new(HashMap::new()),
+        opened: Mutex::new(HashMap::from([(scenario.to_owned(), scenario_ref), (hud_globals_path, hud_globals_ref)]))
     };
 
     let all_dependencies = recursively_get_dependencies_for_map(scenario, context.tag_tree.as_ref(), engine)
@@ -93,7 +96,7 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
     context.scenario_type = context.scenario.lock().unwrap().as_any().downcast_ref::<Scenario>().unwrap()._type;
 
     for path in all_dependencies.iter().filter(|p| p.group() == TagGroup::WeaponHUDInterface) {
-        let hud = context.tag_tree.open_tag_shared(path)?;
+        let hud = context.open_tag(path)?;
         let hud = hud.lock().unwrap();
         let hud: &WeaponHUDInterface = hud.as_any().downcast_ref().unwrap();
         if let Some(child) = hud.child_hud.path().filter(|c| c.group() == TagGroup::WeaponHUDInterface) {
@@ -158,7 +161,7 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
     /// Otherwise, return `true` if the tag is OK, and `false` if not.
     fn verify_tag(&self, path: &TagPath, skip_if_locked: bool) -> Option<bool> {
         let mut result = TagResult::default();
-        match self.tag_tree.open_tag_shared(&path) {
+        match self.open_tag(path) {
             Ok(tag) => {
                 // We want to acquire the tag ASAP in case something tries to read this tag before we verify it
                 let lock = if skip_if_locked {
@@ -253,7 +256,7 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
     }
 
     fn open_tag_unverified(&self, tag_path: &TagPath, result: &mut TagResult) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
-        match self.tag_tree.open_tag_shared(tag_path) {
+        match self.open_tag(tag_path) {
             Ok(n) => Some(n),
             Err(e) => {
                 result.errors.push(format!("Unable to open {tag_path}: {e}"));
diff --git a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
index c025a29..553206c 100644
--- a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
+++ b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
@@ -67,7 +67,7 @@ pub fn verify_scenario_structure_bsp<T: TagTree + Send + Sync + 'static>(tag: &d
                     .get(bit_offset)
                     .map(|r| &r.reference)
                     .and_then(|r| r.path())
-                    .and_then(|r| context.tag_tree.open_tag_shared(r).ok()) else {
+                    .and_then(|r| context.open_tag(r).ok()) else {
                     let bit = 1 << bit_offset;
                     if (complained_bitfield & bit) == 0 {
                         complained_bitfield |= bit;
-- 
2.43.0


From d0883ee9abc8c2efa8a1ede349e76894b5369a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 57/71] fix: repairing a model whose markers cannot all be
 restored changed it anyway

---
 src/ringhopper/src/tag/model.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 9a52c33..f68d0a5 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -69,26 +69,27 @@ macro_rules! fix_runtime_markers {
     ($model:expr) => {{
         let mut changes_made = false;
 
+        // Check everything before changing anything
         for marker in &$model.runtime_markers {
-            changes_made = true;
             for instance in &marker.instances {
-                let node = instance.node_index as u16;
-                let region = instance.region_index as usize;
-                let permutation = instance.permutation_index as usize;
-
-                if node as usize >= $model.nodes.items.len() {
+                if instance.node_index as usize >= $model.nodes.items.len() {
                     return Err(Error::InvalidTagData(format!("marker {} has out-of-bounds node", marker.name)))
                 }
-                if region >= $model.regions.items.len() {
+                let Some(region) = $model.regions.items.get(instance.region_index as usize) else {
                     return Err(Error::InvalidTagData(format!("marker {} has out-of-bounds region", marker.name)))
-                }
-
-                let region = &mut $model.regions.items[region];
-                if permutation >= region.permutations.items.len() {
+                };
+                if instance.permutation_index as usize >= region.permutations.items.len() {
                     return Err(Error::InvalidTagData(format!("marker {} has out-of-bounds permutation", marker.name)))
                 }
+            }
+        }
 
-                let permutation = &mut region.permutations.items[permutation];
+        for marker in &$model.runtime_markers {
+            changes_made = true;
+            for instance in &marker.instances {
+                let node = instance.node_index as u16;
+                let region = &mut $model.regions.items[instance.region_index as usize];
+                let permutation = &mut region.permutations.items[instance.permutation_index as usize];
                 permutation.markers.items.push(ModelRegionPermutationMarker {
                     name: marker.name,
                     node_index: Some(node),
-- 
2.43.0


From f1ac3c7115e290d13c54b5a3a613b9d24c31cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 58/71] fix: uncompressed vertices restored for parts with
 local nodes referred to the wrong nodes

---
 src/ringhopper/src/tag/model.rs | 43 ++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index f68d0a5..bed16aa 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -411,7 +411,18 @@ impl ModelFunctions for GBXModel {
     }
 
     fn fix_uncompressed_vertices(&mut self) -> bool {
-        fix_vertices!(self, restore_missing_uncompressed_vertices)
+        if self.flags.parts_have_local_nodes {
+            let mut fixed = false;
+            for g in &mut self.geometries {
+                for p in &mut g.parts {
+                    fixed |= restore_missing_uncompressed_vertices_with_local_nodes(p);
+                }
+            }
+            fixed
+        }
+        else {
+            fix_vertices!(self, restore_missing_uncompressed_vertices)
+        }
     }
 
     fn flip_lod_cutoffs(&mut self) {
@@ -631,6 +642,36 @@ fn restore_missing_uncompressed_vertices(part: &mut ModelGeometryPart) -> bool {
     true
 }
 
+/// Same as [`restore_missing_uncompressed_vertices`], but for parts with local nodes.
+///
+/// Uncompressed vertices use the part's local nodes, whereas compressed vertices always use the model's nodes.
+fn restore_missing_uncompressed_vertices_with_local_nodes(part: &mut GBXModelGeometryPart) -> bool {
+    let model_part = &mut part.model_geometry_part;
+    if !model_part.uncompressed_vertices.items.is_empty() {
+        return false
+    }
+
+    let Some(local_nodes) = part.local_node_indices.get(..part.local_node_count as usize) else {
+        return false
+    };
+    let to_local = |index: &mut Index| -> bool {
+        if let Some(n) = *index {
+            *index = local_nodes.iter().position(|l| *l as u16 == n).map(|n| n as u16);
+            return index.is_some()
+        }
+        true
+    };
+
+    // If a node is not one of the local nodes, then these vertices cannot be represented.
+    let mut vertices: Vec<ModelVertexUncompressed> = model_part.compressed_vertices.items.iter().map(decompress_model_vertex).collect();
+    if !vertices.iter_mut().all(|v| to_local(&mut v.node0_index) && to_local(&mut v.node1_index)) {
+        return false
+    }
+
+    model_part.uncompressed_vertices.items = vertices;
+    true
+}
+
 fn flip_lod_cutoffs(cutoff: &mut ModelDetailCutoff) {
     std::mem::swap(&mut cutoff.super_low, &mut cutoff.super_high);
     std::mem::swap(&mut cutoff.low, &mut cutoff.high);
-- 
2.43.0


From 1a549dfc41a3954ac571c9a1ce07ba6925ae09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 59/71] fix: invader bludgeon did not use relaxed parsing

---
 src/invader/src/verb/bludgeon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invader/src/verb/bludgeon.rs b/src/invader/src/verb/bludgeon.rs
index ac90286..ed2eb51 100644
--- a/src/invader/src/verb/bludgeon.rs
+++ b/src/invader/src/verb/bludgeon.rs
@@ -17,7 +17,7 @@ pub fn bludgeon(args: Args, description: &'static str) -> Result<(), String> {
     let mut directory = parser.get_virtual_tags_directory();
     directory.set_strictness(ParseStrictness::Relaxed);
 
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(directory, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         let mut tag = context.tags_directory.open_tag_copy(&path)?;
 
         match bludgeon::bludgeon_tag(tag.as_mut(), path) {
-- 
2.43.0


From 64a00ae1de70ff71343030dd21d46f302fa8fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 60/71] fix: reading a planar TIFF panicked or gave the wrong
 number of pixels

---
 src/ringhopper/src/data/bitmap/parse.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/parse.rs b/src/ringhopper/src/data/bitmap/parse.rs
index 4badfe8..c999eb6 100644
--- a/src/ringhopper/src/data/bitmap/parse.rs
+++ b/src/ringhopper/src/data/bitmap/parse.rs
@@ -144,12 +144,14 @@ impl Image {
             ColorType::RGBA(_) => (|pixels| ColorARGBIntBytes { alpha: pixels[3], red: pixels[0], green: pixels[1], blue: pixels[2] }.into(), 4),
             _ => unreachable!()
         };
-        for i in (0..raw_pixels_vec.len()).step_by(bytes_per_pixel) {
-            pixels.push(conversion_function(&raw_pixels_vec[i..]))
-        }
 
-        // Assert that we have the correct pixel count
-        debug_assert_eq!(width * height, pixels.len());
+        // Planar images, for instance, do not give us every channel of every pixel here
+        if raw_pixels_vec.len() != width.mul_overflow_checked(height)?.mul_overflow_checked(bytes_per_pixel)? {
+            return Err(Error::Other("only contiguous (chunky) pixel data supported for tiff".to_string()))
+        }
+        for i in raw_pixels_vec.chunks(bytes_per_pixel) {
+            pixels.push(conversion_function(i))
+        }
 
         // Done!
         Ok(Image { width, height, data: pixels })
-- 
2.43.0


From 775b633d5a23678f72622101591a9efccac2a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 61/71] fix: a PNG with made up dimensions aborted the program
 for want of memory

---
 src/ringhopper/src/data/bitmap/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/data/bitmap/parse.rs b/src/ringhopper/src/data/bitmap/parse.rs
index c999eb6..f3c9123 100644
--- a/src/ringhopper/src/data/bitmap/parse.rs
+++ b/src/ringhopper/src/data/bitmap/parse.rs
@@ -173,7 +173,14 @@ impl Image {
         let (raw_pixels_vec, color_type, bit_depth, width, height) = wrap_png_error!((|| -> Result<(Vec<u8>, ColorType, BitDepth, usize, usize), DecodingError> {
             let decoder = Decoder::new(Cursor::new(&png));
             let mut reader = decoder.read_info()?;
-            let mut raw_pixels = vec![0; reader.output_buffer_size()];
+
+            // DEFLATE cannot expand data by more than 1032:1, so a bigger image cannot be complete; do not try to allocate it
+            let output_size = reader.output_buffer_size();
+            if output_size / 1032 > png.len() {
+                return Err(DecodingError::LimitsExceeded)
+            }
+
+            let mut raw_pixels = vec![0; output_size];
             let info = reader.next_frame(&mut raw_pixels)?;
             let color_type = info.color_type;
             let bit_depth = info.bit_depth;
-- 
2.43.0


From 0f68d8465bf4d3b3d0426bd6962d70d33a81dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 62/71] fix: a padding.txt with characters outside of ASCII
 caused a panic

---
 src/ringhopper/src/data/bitmap/plate.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index befccc9..3f820b8 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -102,11 +102,10 @@ fn parse_padding_file(padding_metadata: &Path) -> RinghopperResult<ColorARGBInt>
         return Err(Error::Other(format!("{padding_metadata:?} is empty")));
     }
 
-    let (octothorpe, color) = padding_color.split_at(1);
-
-    if octothorpe != "#" || (color.len() != 6 && color.len() != 3) {
-        return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")));
-    }
+    let color = match padding_color.strip_prefix('#') {
+        Some(c) if c.is_ascii() && (c.len() == 6 || c.len() == 3) => c,
+        _ => return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")))
+    };
 
     let colors: [char; 6] = if color.len() == 3 {
         let mut colors_iterator = color.chars();
-- 
2.43.0


From 0f23a1655c058ecd3524e97b764e410ea55a4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 63/71] fix: color plate data longer than its size was cut off
 rather than refused

---
 src/ringhopper/src/tag/bitmap.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/bitmap.rs b/src/ringhopper/src/tag/bitmap.rs
index 525028a..c3bfc4f 100644
--- a/src/ringhopper/src/tag/bitmap.rs
+++ b/src/ringhopper/src/tag/bitmap.rs
@@ -6,7 +6,7 @@ pub use swizzle::*;
 
 use std::iter::FusedIterator;
 use std::num::NonZeroUsize;
-use flate2::FlushDecompress;
+use flate2::{FlushDecompress, Status};
 use definitions::{Bitmap, BitmapData, BitmapDataFormat, BitmapDataType};
 use primitives::byteorder::{BigEndian, LittleEndian};
 use primitives::error::{Error, OverflowCheck, RinghopperResult};
@@ -341,11 +341,14 @@ pub fn extract_compressed_color_plate_data(bitmap: &Bitmap) -> RinghopperResult<
     let mut compressed_data = vec![0u8; expected_uncompressed_size];
     let mut decompressor = flate2::Decompress::new(true);
 
-    decompressor
+    let status = decompressor
         .decompress(&compressed_bytes, &mut compressed_data, FlushDecompress::Finish)
         .map_err(|e| Error::InvalidTagData(format!("zlib error: {e}")))?;
 
     let read_bytes = decompressor.total_out();
+    if status != Status::StreamEnd {
+        return Err(Error::InvalidTagData("compressed color plate data is incomplete or longer than its size".to_owned()))
+    }
     if read_bytes as usize != compressed_data.len() {
         return Err(Error::InvalidTagData(format!("decompressed size is wrong (expected 0x{expected_uncompressed_size:08X}, got 0x{read_bytes:08X} instead)")))
     }
-- 
2.43.0


From 2951ae63b6a2c200f29171e0121af75387e5be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 64/71] fix: a JPEG XL image with channels besides color and
 alpha was read as garbage

---
 src/ringhopper/src/data/bitmap/parse.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/parse.rs b/src/ringhopper/src/data/bitmap/parse.rs
index f3c9123..9fddaf8 100644
--- a/src/ringhopper/src/data/bitmap/parse.rs
+++ b/src/ringhopper/src/data/bitmap/parse.rs
@@ -57,16 +57,19 @@ impl Image {
 
         let jxl = wrap_jxl_error!(JxlImage::builder().read(data))?;
         let render = wrap_jxl_error!(jxl.render_frame(0))?;
-        let framebuffer = render.image_all_channels();
-        let pixel_bytes : Vec<u8> = framebuffer.buf().iter().map(|f| (f * 255.0) as u8).collect();
 
+        // Only the color and alpha channels; there can be any number of others.
+        let mut stream = render.stream();
         let mut image = Image {
-            width: framebuffer.width(),
-            height: framebuffer.height(),
+            width: stream.width() as usize,
+            height: stream.height() as usize,
             data: Vec::new()
         };
 
-        image.data.reserve_exact(image.width.mul_overflow_checked(image.height)?);
+        let pixel_count = image.width.mul_overflow_checked(image.height)?;
+        let mut pixel_bytes = vec![0u8; pixel_count.mul_overflow_checked(stream.channels() as usize)?];
+        stream.write_to_buffer(&mut pixel_bytes);
+        image.data.reserve_exact(pixel_count);
 
         match jxl.pixel_format() {
             PixelFormat::Gray => {
-- 
2.43.0


From ce71d5556ed9745ec76f76958fff463c241a2c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 65/71] fix: invader plate wrote the plate under another name
 if the name of the tag has a dot

---
 src/invader/src/verb/plate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/invader/src/verb/plate.rs b/src/invader/src/verb/plate.rs
index f1523f9..402d974 100644
--- a/src/invader/src/verb/plate.rs
+++ b/src/invader/src/verb/plate.rs
@@ -17,18 +17,18 @@ pub fn plate(args: Args, description: &'static str) -> Result<(), String> {
 
     let tag = parser.get_extra()[0].clone();
     do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, Some(TagGroup::Bitmap), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
-        let data_dir = context
+        let native_path = context
             .args
             .get_data()
-            .join(path.to_native_path())
-            .with_extension("");
+            .join(path.to_native_path());
+        let data_dir = native_path.with_extension("");
 
         if !data_dir.is_dir() {
             return Ok(ProcessSuccessType::Skipped("no directory to import in data"))
         }
 
         let result = make_color_plate_from_loose(&data_dir)?;
-        let image_file = data_dir.with_extension("tif");
+        let image_file = native_path.with_extension("tif");
         let tiff = result.to_tiff();
 
         std::fs::write(&image_file, tiff)
-- 
2.43.0


From 11486cffd6f60842ac1db4b58539aa3f52873aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 66/71] fix: do not recover scripts outside of the scripts
 directory or over each other

---
 src/ringhopper/src/tag/recover.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/recover.rs b/src/ringhopper/src/tag/recover.rs
index 281e890..89336c8 100644
--- a/src/ringhopper/src/tag/recover.rs
+++ b/src/ringhopper/src/tag/recover.rs
@@ -48,11 +48,16 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
         return Ok(None)
     }
 
-    // TODO: Verify that there are no duplicate script source files, and that all source files have lowercase names.
+    // TODO: Verify that all source files have lowercase names.
 
     let base_scripts_dir = PathBuf::from(tag_path.to_native_path()).parent().unwrap().join("scripts");
     let mut fs = HashMap::new();
     for i in &scenario.source_files.items {
+        // The name is used as a filename, so it must not be able to point somewhere else.
+        if i.name.as_str().contains(['/', '\\', ':', '\0']) {
+            return Err(InvalidTagData(format!("script source name {:?} cannot be used as a filename", i.name.as_str())))
+        }
+
         let path = match i.name.as_str() {
             "global_scripts" => "global_scripts.hsc".into(),
             name => base_scripts_dir.clone().join(format!("{name}.hsc"))
@@ -64,7 +69,9 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
 
         // Finally add the script
         let data = data[..end].to_owned();
-        fs.insert(path, data);
+        if fs.insert(path, data).is_some() {
+            return Err(InvalidTagData(format!("script source {:?} is present more than once", i.name.as_str())))
+        }
     }
 
     Ok(Some(fs))
-- 
2.43.0


From c07d97b526395b9b1771dcb13cec945644762d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 67/71] fix: refuse files given as directories instead of
 crashing

---
 src/invader/src/cli.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/invader/src/cli.rs b/src/invader/src/cli.rs
index 311b2c1..eb5b984 100644
--- a/src/invader/src/cli.rs
+++ b/src/invader/src/cli.rs
@@ -485,6 +485,9 @@ impl CommandLineParser {
                     if !path.exists() {
                         return Err(format!("Path `{}` does not exist for --{}", path.display(), n.name))
                     }
+                    if !path.is_dir() {
+                        return Err(format!("Path `{}` is not a directory for --{}", path.display(), n.name))
+                    }
                 }
             }
             Ok(())
-- 
2.43.0


From f87d75829579cce4de9008107f100c80a580a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 68/71] fix: show tags in the dependency tree that depend on
 each other in a circle

---
 src/invader/src/verb/dependency_tree.rs | 28 ++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/invader/src/verb/dependency_tree.rs b/src/invader/src/verb/dependency_tree.rs
index 82b63c2..203c3c1 100644
--- a/src/invader/src/verb/dependency_tree.rs
+++ b/src/invader/src/verb/dependency_tree.rs
@@ -165,8 +165,9 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
     // Sort out all root tags.
     let mut next_on_depths = Vec::new();
     let output = make_stdout_logger();
-    let root_tags = all_tags.iter().filter(|&t| {
-        if tags_with_broken_dependencies.is_some_and(|b| !b.contains(&t)) {
+    let is_shown = |t: &TagPath| !tags_with_broken_dependencies.is_some_and(|b| !b.contains(&t));
+    let mut root_tags: Vec<&TagPath> = all_tags.iter().filter(|&t| {
+        if !is_shown(t) {
             return false;
         }
         for r in &result {
@@ -175,7 +176,28 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
             }
         }
         true
-    });
+    }).collect();
+
+    // Tags that depend on each other in a circle may have no root; each such circle is shown from its first tag.
+    let mut reached: HashSet<&TagPath> = HashSet::new();
+    let mut reach = |from: &TagPath| -> bool {
+        let mut pending: Vec<&TagPath> = result.get_key_value(from).map(|r| r.0).into_iter().collect();
+        let is_new = pending.iter().any(|t| !reached.contains(t));
+        while let Some(t) = pending.pop() {
+            if reached.insert(t) {
+                pending.extend(result.get(t).into_iter().flatten());
+            }
+        }
+        is_new
+    };
+    for i in &root_tags {
+        reach(i);
+    }
+    for i in all_tags.iter().filter(|t| is_shown(t)) {
+        if reach(i) {
+            root_tags.push(i);
+        }
+    }
 
     let mut stack = Vec::new();
     for i in root_tags {
-- 
2.43.0


From 9a2df9f3d07a085317f93498ae15670d53111daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 69/71] fix: do not report models as fixed when no vertices
 were missing

---
 src/ringhopper/src/tag/model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index bed16aa..2410017 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -606,7 +606,7 @@ fn check_indices_for_gbxpart(gbxmodel: &GBXModel, gbxpart: &GBXModelGeometryPart
 }
 
 fn restore_missing_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
-    if !part.compressed_vertices.items.is_empty() {
+    if !part.compressed_vertices.items.is_empty() || part.uncompressed_vertices.items.is_empty() {
         return false
     }
 
@@ -630,7 +630,7 @@ fn destroy_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
 }
 
 fn restore_missing_uncompressed_vertices(part: &mut ModelGeometryPart) -> bool {
-    if !part.uncompressed_vertices.items.is_empty() {
+    if !part.uncompressed_vertices.items.is_empty() || part.compressed_vertices.items.is_empty() {
         return false
     }
 
@@ -647,7 +647,7 @@ fn restore_missing_uncompressed_vertices(part: &mut ModelGeometryPart) -> bool {
 /// Uncompressed vertices use the part's local nodes, whereas compressed vertices always use the model's nodes.
 fn restore_missing_uncompressed_vertices_with_local_nodes(part: &mut GBXModelGeometryPart) -> bool {
     let model_part = &mut part.model_geometry_part;
-    if !model_part.uncompressed_vertices.items.is_empty() {
+    if !model_part.uncompressed_vertices.items.is_empty() || model_part.compressed_vertices.items.is_empty() {
         return false
     }
 
-- 
2.43.0


From 7617a06e0ad5f17f57ca950315c4ce3684f8486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 70/71] fix: show in the help of dependency-tree that --depth
 takes a value

---
 src/invader/src/verb/dependency_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invader/src/verb/dependency_tree.rs b/src/invader/src/verb/dependency_tree.rs
index 203c3c1..da2d3dc 100644
--- a/src/invader/src/verb/dependency_tree.rs
+++ b/src/invader/src/verb/dependency_tree.rs
@@ -11,7 +11,7 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
         .add_tags(true)
         .add_help()
         .add_custom_parameter(Parameter::new("broken", 'b', "Only show broken dependencies (and their dependents)", "", None, 0, None, false, false))
-        .add_custom_parameter(Parameter::new("depth", 'd', "Maximum depth (0 = only show root tags; by default, max depth is 2^32-1)", "", Some(CommandLineValueType::UInteger), 1, None, false, false))
+        .add_custom_parameter(Parameter::new("depth", 'd', "Maximum depth (0 = only show root tags; by default, max depth is 2^32-1)", "<depth>", Some(CommandLineValueType::UInteger), 1, None, false, false))
         .set_required_extra_parameters(1)
         .parse(args)?;
 
-- 
2.43.0


From 44ef0bc0f0c8a8004518a553ecbcc1aca4cc7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 71/71] fix: read tags kept in a resource map from the entry
 the map names

---
 src/ringhopper-primitives/src/map.rs |  3 +++
 src/ringhopper/src/map/gearbox.rs    | 10 ++++++++--
 src/ringhopper/src/map/xbox.rs       |  1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index b7d4ec9..03eaaca 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -31,6 +31,9 @@ pub enum DomainType {
     /// Resource map type and path (0x0 = start of resource map entry).
     ResourceMapEntry(ResourceMapType, String),
 
+    /// Resource map type and index of the entry (0x0 = start of resource map entry).
+    ResourceMapIndex(ResourceMapType, usize),
+
     /// Vertex data (0x0 = start of vertices)
     ModelVertexData,
 
diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 69e7210..d336bf8 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -231,7 +231,7 @@ impl GearboxCacheFile {
                         if let Some(n) = self.bitmaps.as_ref() {
                             match_indexed_tag(n, ResourceMapType::Bitmaps)?;
                         }
-                        tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Bitmaps, tag_path.path().to_owned());
+                        tag.domain = DomainType::ResourceMapIndex(ResourceMapType::Bitmaps, tag.address);
                         tag.address = 0;
                     }
                     TagGroup::Sound => self.patch_up_external_custom_edition_sound_tag(tag)?,
@@ -239,7 +239,7 @@ impl GearboxCacheFile {
                         if let Some(n) = self.loc.as_ref() {
                             match_indexed_tag(n, ResourceMapType::Loc)?;
                         }
-                        tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Loc, tag_path.path().to_owned());
+                        tag.domain = DomainType::ResourceMapIndex(ResourceMapType::Loc, tag.address);
                         tag.address = 0;
                     }
                 }
@@ -363,6 +363,12 @@ impl Map for GearboxCacheFile {
                 ResourceMapType::Loc => Some((self.loc.as_ref()?.get_by_path(path)?.get_data(), 0))
             }
 
+            DomainType::ResourceMapIndex(r, index) => match r {
+                ResourceMapType::Bitmaps => Some((self.bitmaps.as_ref()?.get(*index)?.get_data(), 0)),
+                ResourceMapType::Sounds => Some((self.sounds.as_ref()?.get(*index)?.get_data(), 0)),
+                ResourceMapType::Loc => Some((self.loc.as_ref()?.get(*index)?.get_data(), 0))
+            }
+
             DomainType::BSPVertices(b) => {
                 let bsp = self.bsp_vertex_data.get(*b)?;
                 unsafe { Some((self.data.get_unchecked(bsp.clone()), 0)) }
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 620aefd..48279fa 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -138,6 +138,7 @@ impl Map for XboxCacheFile {
 
             DomainType::ResourceMapFile(_) => None,
             DomainType::ResourceMapEntry(_, _) => None,
+            DomainType::ResourceMapIndex(_, _) => None,
             DomainType::BSPVertices(_) => None,
             DomainType::ModelVertexData => None,
             DomainType::ModelTriangleData => None,
-- 
2.43.0

