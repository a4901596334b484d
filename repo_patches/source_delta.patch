From 978e41c3bc86c3532ca321a64231f41b969dfdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 01/22] fix: grid extents are the ceiling of shape over chunk
 shape

u64_ceil_div added one to the dividend, so it gave an extra chunk wherever
chunk extent divides shape + 1 (e.g. 4 over 5), and overflowed at u64::MAX.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From 4cb07bcad66d88bb85438d72983985e95a7068d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:25 +0000
Subject: [PATCH 02/22] fix: regions outside the array select no chunks

A region with no cell in the array could enumerate an out-of-bounds chunk.
Also avoid overflow near u64::MAX in both chunk enumerations.
---
 src/ndarray.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..7d0e545 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -14,6 +14,7 @@ use ndarray::{
 };
 
 use crate::{
+    u64_ceil_div,
     ArrayMetadata,
     ChunkCoord,
     CoordVec,
@@ -393,7 +394,7 @@ impl ArrayMetadata {
             .get_shape()
             .iter()
             .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
+            .map(|(&d, &s)| u64_ceil_div(d, u64::from(s)))
             .collect::<GridCoord>();
 
         CoordIterator::new(&coord_ceil)
@@ -411,12 +412,16 @@ impl ArrayMetadata {
             .zip(&self.chunk_grid.chunk_shape)
             .map(|(&o, &cs)| o / u64::from(cs))
             .collect();
+        if bbox.is_empty() {
+            // No cell of the region is in the array.
+            return CoordIterator::floor_ceil(&floor_coord, &floor_coord);
+        }
         let ceil_coord: GridCoord = bbox
             .offset
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            .map(|((&o, &s), cs)| u64_ceil_div(o + s, cs))
             .collect();
 
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
-- 
2.43.0


From 6d226be3808ee4ce83a7b856335489c6c55eceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:25 +0000
Subject: [PATCH 03/22] fix: exact remaining length and 0-d grids in chunk
 enumeration

size_hint underflowed after the end was reached, and the one chunk of a
zero-dimensional array was counted but never enumerated.
---
 src/ndarray.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 7d0e545..47dc276 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -524,8 +524,13 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.accumulator >= self.total_coords {
+            return None;
+        }
         self.accumulator += 1;
-        self.iter.next()
+        // The product over no axes is one empty coordinate, for which
+        // `multi_cartesian_product` yields nothing.
+        Some(self.iter.next().unwrap_or_default())
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 6f10d48788e054cc974ea8846cd69a6a67806626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 04/22] fix: extension data types without a fallback are
 refused, not a panic

---
 src/data_type.rs | 4 +++-
 src/lib.rs       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..c4cd954 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -304,7 +304,9 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            Extended { type_string, .. } => {
+                Err(MetadataError::UnsupportedDataType(type_string.clone()))
+            }
         }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..f267ebf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -91,6 +91,8 @@ type JsonObject = serde_json::Map<String, serde_json::Value>;
 pub enum MetadataError {
     #[error("value was not of the expected type: {0}")]
     UnexpectedType(serde_json::Value),
+    #[error("Extension data type is not supported and has no fallback: {0}")]
+    UnsupportedDataType(String),
     #[error("Encountered an unknown extension that must be understood: {}", .0.extension)]
     UnknownRequiredExtension(ExtensionMetadata),
 }
@@ -101,7 +103,7 @@ impl From<MetadataError> for std::io::Error {
         use MetadataError::*;
 
         match e {
-            UnexpectedType(..) => Error::new(ErrorKind::InvalidData, e),
+            UnexpectedType(..) | UnsupportedDataType(..) => Error::new(ErrorKind::InvalidData, e),
             UnknownRequiredExtension(..) => Error::new(ErrorKind::Other, e),
         }
     }
-- 
2.43.0


From c5312e77355a4b79ef67fd3d47ffde57c83808a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 05/22] fix: a refused chunk write leaves the stored chunk
 alone

---
 src/chunk.rs   | 33 ++++++++++++++++++++++-----------
 src/storage.rs |  4 ++++
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..0ece930 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -265,6 +265,27 @@ fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> Result<()>
     }
 }
 
+/// Check that a chunk may be written to an array.
+pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
+    array_meta: &ArrayMetadata,
+    chunk: &B,
+) -> Result<()> {
+    check_array_type::<T>(array_meta)?;
+
+    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            format!(
+                "Can not write chunk with too few elements. Expected {} given {}",
+                array_meta.get_chunk_num_elements(),
+                chunk.get_num_elements()
+            ),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -304,18 +325,8 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
-        check_array_type::<T>(array_meta)?;
+        check_chunk(array_meta, chunk)?;
 
-        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
-            return Err(Error::new(
-                ErrorKind::InvalidData,
-                format!(
-                    "Can not write chunk with too few elements. Expected {} given {}",
-                    array_meta.get_chunk_num_elements(),
-                    chunk.get_num_elements()
-                ),
-            ));
-        }
         let mut compressor = array_meta.compressor.encoder(buffer);
         chunk.write_data(&mut compressor, array_meta)?;
 
diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..8b7a117 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -11,6 +11,7 @@ use serde_json::Value;
 use crate::{
     canonicalize_path,
     chunk::{
+        check_chunk,
         DataChunk,
         ReadableDataChunk,
         ReinitDataChunk,
@@ -461,6 +462,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
     ) -> Result<(), Error> {
         // TODO convert assert
         // assert!(array_meta.in_bounds(chunk.get_grid_position()));
+        // Setting the key discards any existing value, so a chunk that can not
+        // be written must be refused before that.
+        check_chunk(array_meta, chunk)?;
         let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
         self.set(&chunk_key, |writer| {
             <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
-- 
2.43.0


From 9890595bd77939ecc046053495287c2e50184b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 06/22] fix: chunk shapes with more elements than a chunk can
 hold are refused

---
 src/chunk.rs |  9 +++++----
 src/lib.rs   | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 0ece930..5727bfa 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -272,12 +272,13 @@ pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
 ) -> Result<()> {
     check_array_type::<T>(array_meta)?;
 
-    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+    let num_elements = array_meta.checked_chunk_num_elements()?;
+    if chunk.get_num_elements() != num_elements {
         return Err(Error::new(
             ErrorKind::InvalidData,
             format!(
                 "Can not write chunk with too few elements. Expected {} given {}",
-                array_meta.get_chunk_num_elements(),
+                num_elements,
                 chunk.get_num_elements()
             ),
         ));
@@ -299,7 +300,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
         check_array_type::<T>(array_meta)?;
 
         let mut chunk =
-            T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
+            T::create_data_chunk(&grid_position, array_meta.checked_chunk_num_elements()?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
@@ -314,7 +315,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     ) -> Result<()> {
         check_array_type::<T>(array_meta)?;
 
-        chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        chunk.reinitialize(&grid_position, array_meta.checked_chunk_num_elements()?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
diff --git a/src/lib.rs b/src/lib.rs
index f267ebf..eb4a9bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -481,6 +481,21 @@ impl ArrayMetadata {
             .product()
     }
 
+    /// Get the total number of elements in a chunk, or an error if it is too
+    /// large for a chunk.
+    pub(crate) fn checked_chunk_num_elements(&self) -> Result<u32, Error> {
+        self.chunk_grid
+            .chunk_shape
+            .iter()
+            .try_fold(1u32, |n, &d| n.checked_mul(d))
+            .ok_or_else(|| {
+                Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Chunk shape has too many elements",
+                )
+            })
+    }
+
     /// Get the upper bound extent of grid coordinates.
     pub fn get_grid_extent(&self) -> GridCoord {
         self.shape
-- 
2.43.0


From 37f65c6abb340d75ffaea9eb53cf7972b41a3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 07/22] fix: failing to access a stored value is not taken for
 its absence

---
 src/store/filesystem.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..062e71a 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -11,7 +11,10 @@ use std::io::{
     ErrorKind,
     Result,
 };
-use std::path::PathBuf;
+use std::path::{
+    Path,
+    PathBuf,
+};
 
 use fs2::FileExt;
 use serde_json::{
@@ -143,10 +146,7 @@ impl FilesystemHierarchy {
         // Note: cannot use `canonicalize` on both the constructed array path
         // and `base_path` and check `starts_with`, because `canonicalize` also
         // requires the path exist.
-        use std::path::{
-            Component,
-            Path,
-        };
+        use std::path::Component;
 
         // Normalize the path to be relative.
         let mut components = Path::new(key).components();
@@ -190,17 +190,31 @@ impl FilesystemHierarchy {
     }
 }
 
+/// Get the filesystem metadata at a path, or `None` if nothing exists there.
+///
+/// Unlike `Path::exists` and `Path::is_file`, this does not take failing to
+/// access the path for its absence.
+fn metadata_if_exists(path: &Path) -> Result<Option<fs::Metadata>> {
+    match fs::metadata(path) {
+        Ok(metadata) => Ok(Some(metadata)),
+        Err(e) => match e.kind() {
+            ErrorKind::NotFound | ErrorKind::NotADirectory => Ok(None),
+            _ => Err(e),
+        },
+    }
+}
+
 impl ReadableStore for FilesystemHierarchy {
     type GetReader = BufReader<File>;
 
     fn exists(&self, key: &str) -> Result<bool> {
         let target = self.get_path(key)?;
-        Ok(target.is_file())
+        Ok(metadata_if_exists(&target)?.map_or(false, |m| m.is_file()))
     }
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
-        if target.is_file() {
+        if metadata_if_exists(&target)?.map_or(false, |m| m.is_file()) {
             let file = File::open(target)?;
             file.lock_shared()?;
             Ok(Some(BufReader::new(file)))
@@ -260,7 +274,7 @@ impl WriteableStore for FilesystemHierarchy {
     fn set<F: FnOnce(Self::SetWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
         let target = self.get_path(key)?;
         if let Some(parent) = target.parent() {
-            if !parent.exists() {
+            if metadata_if_exists(parent)?.is_none() {
                 fs::create_dir_all(parent)?;
             }
         }
@@ -282,19 +296,19 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path.exists() {
+        if metadata_if_exists(&path)?.is_some() {
             let file = File::open(&path)?;
             file.lock_exclusive()?;
             fs::remove_file(&path)?;
         }
 
-        Ok(!path.exists())
+        Ok(metadata_if_exists(&path)?.is_none())
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if path.exists() {
+        if metadata_if_exists(&path)?.is_some() {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
@@ -308,7 +322,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(!path.exists())
+        Ok(metadata_if_exists(&path)?.is_none())
     }
 }
 
-- 
2.43.0


From cf958bd878c077265c3635e77683572b5894d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 08/22] fix: the fill value of an f16 array is a number, not
 its bit pattern

---
 src/data_type.rs | 19 ++++++++++++++++++-
 src/lib.rs       |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index c4cd954..5352f83 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -462,6 +462,11 @@ pub trait ReflectedType:
 {
     const ZARR_TYPE: DataType;
 
+    /// Convert the JSON `fill_value` of array metadata to this type.
+    fn from_fill_value(value: serde_json::Value) -> Result<Self, serde_json::Error> {
+        serde_json::from_value(value)
+    }
+
     fn create_data_chunk(grid_position: &GridCoord, num_el: u32) -> VecDataChunk<Self> {
         VecDataChunk::<Self>::new(
             grid_position.clone(),
@@ -487,10 +492,22 @@ macro_rules! reflected_type {
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B2, endian: NATIVE_ENDIAN}, i16);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B4, endian: NATIVE_ENDIAN}, i32);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B8, endian: NATIVE_ENDIAN}, i64);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16);
 #[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32);
 #[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64);
 
+impl ReflectedType for f16 {
+    const ZARR_TYPE: DataType = DataType::Float {
+        size: FloatSize::B2,
+        endian: NATIVE_ENDIAN,
+    };
+
+    // The `Deserialize` implementation of `f16` takes the bit representation
+    // rather than the number.
+    fn from_fill_value(value: serde_json::Value) -> Result<Self, serde_json::Error> {
+        serde_json::from_value(value).map(f16::from_f64)
+    }
+}
+
 // TODO: As example
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 8}, [u8; 1]);
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 16}, [u8; 2]);
diff --git a/src/lib.rs b/src/lib.rs
index eb4a9bd..4230f9b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -450,7 +450,7 @@ impl ArrayMetadata {
     pub fn get_effective_fill_value<T: ReflectedType>(&self) -> Result<T, Error> {
         Ok(self
             .get_fill_value()
-            .map(|v| serde_json::from_value(v.clone()))
+            .map(|v| T::from_fill_value(v.clone()))
             .transpose()?
             .unwrap_or_else(T::default))
     }
-- 
2.43.0


From bf7569411ce9fecd379811f29e588e6e47ab0ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 09/22] fix: a key must not leave the hierarchy even to come
 back below it

---
 src/store/filesystem.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 062e71a..f4eb061 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,17 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            // A path must not leave the base path even to come back below it.
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From 9b1d83da427d33c923a3ef79e11f05c001543233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 10/22] fix: listing yields the names of nodes and usable keys

---
 src/storage.rs          | 71 +++++++++++++++++++----------------------
 src/store/filesystem.rs | 38 ++++++++++++----------
 2 files changed, 54 insertions(+), 55 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 8b7a117..cee25ed 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -311,50 +311,45 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
     fn list_nodes(&self, prefix_path: &str) -> Result<Vec<String>, Error> {
         // TODO: Inelegant.
 
-        let key_prefix = format!(
-            "{}/{}",
-            crate::META_ROOT_PATH,
-            crate::canonicalize_path(prefix_path)
-        );
-        let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
-
-        // Find array and group metadata keys.
-        keys.retain(|k| k.ends_with(&self.get_entry_point_metadata().metadata_key_suffix));
-        keys.iter_mut().for_each(|k| {
-            k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
-        });
-        keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
+        let canon_path = canonicalize_path(prefix_path);
+        let key_prefix = if canon_path.is_empty() {
+            format!("{}/", crate::META_ROOT_PATH)
+        } else {
+            format!("{}/{}/", crate::META_ROOT_PATH, canon_path)
+        };
+        let (keys, prefixes) = self.list_dir(&key_prefix)?;
+
+        // Find array and group metadata keys, and remove their extensions to
+        // convert them to node names.
+        let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
+        let extensions = [
+            format!(".{}{}", crate::ARRAY_METADATA_KEY_EXT, suffix),
+            format!(".{}{}", crate::GROUP_METADATA_KEY_EXT, suffix),
+        ];
+        let node_names = keys.iter().filter_map(|key| {
+            let name = key.strip_prefix(key_prefix.as_str())?;
+            extensions
+                .iter()
+                .find_map(|ext| name.strip_suffix(ext.as_str()))
         });
-        assert_eq!(
-            crate::ARRAY_METADATA_KEY_EXT.len(),
-            crate::GROUP_METADATA_KEY_EXT.len()
-        );
-
-        // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
-        keys.iter_mut()
-            .for_each(|k| k.truncate(k.len() - suffix_len));
 
         // Add potential implicit groups.
-        prefixes
-            .iter_mut()
-            .for_each(|p| p.truncate(p.trim_end_matches('/').len()));
-        keys.extend(prefixes.drain(..));
+        let implicit_names = prefixes
+            .iter()
+            .filter_map(|p| p.strip_prefix(key_prefix.as_str()))
+            .map(|name| name.trim_end_matches('/'));
 
-        // Remove duplicates.
-        keys.sort();
-        keys.dedup();
+        let mut nodes: Vec<String> = node_names
+            .chain(implicit_names)
+            .filter(|name| !name.is_empty())
+            .map(str::to_owned)
+            .collect();
 
-        // Remove key prefix to convert to node path.
-        keys.iter_mut().for_each(|k| {
-            k.drain(..key_prefix.len());
-        });
+        // Remove duplicates.
+        nodes.sort();
+        nodes.dedup();
 
-        Ok(keys)
+        Ok(nodes)
     }
 }
 
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index f4eb061..3b2a841 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -243,25 +243,29 @@ impl ListableStore for FilesystemHierarchy {
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
 
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
-            e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
-                        t,
-                    )
-                })
-            })
-            .ok()
-        });
+        if !metadata_if_exists(&target)?.map_or(false, |m| m.is_dir()) {
+            return Ok((keys, prefixes));
+        }
 
-        for (key, t) in entries {
-            if t.is_file() {
-                keys.push(key);
+        for entry in fs::read_dir(target)? {
+            let entry = entry?;
+            // Names that are not unicode can not be part of a key.
+            let name = match entry.file_name().into_string() {
+                Ok(name) => name,
+                Err(_) => continue,
+            };
+            let separator = if prefix.is_empty() || prefix.ends_with('/') {
+                ""
             } else {
-                // t.is_dir() == true, because symlinks were followed.
-                prefixes.push(key);
+                "/"
+            };
+            let key = format!("{}{}{}", prefix, separator, name);
+
+            // Symlinks are followed. Skip entries removed in the meantime.
+            match metadata_if_exists(&entry.path())? {
+                Some(m) if m.is_file() => keys.push(key),
+                Some(m) if m.is_dir() => prefixes.push(key + "/"),
+                _ => (),
             }
         }
 
-- 
2.43.0


From d3b857187946605f393ca487cb9d95e17b59c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 11/22] fix: metadata keys end in exactly the declared suffix

---
 src/lib.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4230f9b..63e14dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -64,17 +64,15 @@ pub const VERSION: Version = Version {
     build: Vec::new(),
 };
 
-// TODO: from https://users.rust-lang.org/t/append-an-additional-extension/23586/12
-fn add_extension(path: &mut std::path::PathBuf, extension: impl AsRef<std::path::Path>) {
-    match path.extension() {
-        Some(ext) => {
-            let mut ext = ext.to_os_string();
-            ext.push(".");
-            ext.push(extension.as_ref());
-            path.set_extension(ext)
-        }
-        None => path.set_extension(extension.as_ref()),
-    };
+/// Append an extension and a suffix to the last name of a path.
+fn add_extension(path: &mut PathBuf, extension: &str, suffix: &str) {
+    if let Some(name) = path.file_name() {
+        let mut name = name.to_os_string();
+        name.push(".");
+        name.push(extension);
+        name.push(suffix);
+        path.set_file_name(name);
+    }
 }
 
 const ENTRY_POINT_KEY: &str = "zarr.json";
@@ -196,18 +194,14 @@ pub trait Hierarchy {
     fn array_metadata_key(&self, path_name: &str) -> PathBuf {
         let mut key = PathBuf::from(META_ROOT_PATH).join(canonicalize_path(path_name));
         let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
-        let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
-        add_extension(&mut key, ARRAY_METADATA_KEY_EXT);
-        add_extension(&mut key, suffix);
+        add_extension(&mut key, ARRAY_METADATA_KEY_EXT, suffix);
         key
     }
 
     fn group_metadata_key(&self, path_name: &str) -> PathBuf {
         let mut key = PathBuf::from(META_ROOT_PATH).join(canonicalize_path(path_name));
         let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
-        let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
-        add_extension(&mut key, GROUP_METADATA_KEY_EXT);
-        add_extension(&mut key, suffix);
+        add_extension(&mut key, GROUP_METADATA_KEY_EXT, suffix);
         key
     }
 
-- 
2.43.0


From 4b5ded40b3e002744dedef7581bc551cee186300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 12/22] fix: a metadata key is not itself a node

---
 src/storage.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index cee25ed..460c40a 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -183,14 +183,7 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         // TODO: should follow spec more closely by using `list_dir` for implicit groups.
         Ok(
             self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists(
-                    self.group_metadata_key(path_name)
-                        .with_extension("")
-                        .with_extension("")
-                        .to_str()
-                        .expect("TODO"),
-                )?,
+                || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?,
         )
     }
 
-- 
2.43.0


From abc1ef8afd957af76601e146342125a11941200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 13/22] fix: failing to load an array is not taken for its
 absence

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63e14dd..8908ea7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,7 +223,11 @@ pub trait HierarchyReader: Hierarchy {
 
     /// Test whether an array exists.
     fn array_exists(&self, path_name: &str) -> Result<bool, Error> {
-        Ok(self.exists(path_name)? && self.get_array_metadata(path_name).is_ok())
+        match self.get_array_metadata(path_name) {
+            Ok(_) => Ok(true),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
+        }
     }
 
     /// Get a URI string for a data chunk.
-- 
2.43.0


From fa37f4ac2387e481d054774c781c61e85b16e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 14/22] fix: removing a node removes the nodes below it

---
 src/lib.rs     | 5 +++++
 src/storage.rs | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8908ea7..5b5ceb1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -205,6 +205,11 @@ pub trait Hierarchy {
         key
     }
 
+    /// Prefix of the metadata keys of all nodes below a node.
+    fn metadata_path_key(&self, path_name: &str) -> PathBuf {
+        PathBuf::from(META_ROOT_PATH).join(canonicalize_path(path_name))
+    }
+
     fn data_path_key(&self, path_name: &str) -> PathBuf {
         PathBuf::from(DATA_ROOT_PATH).join(canonicalize_path(path_name))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 460c40a..ba0e60c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -434,10 +434,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
+        self.erase_prefix(self.metadata_path_key(path_name).to_str().expect("TODO"))?;
         self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
         Ok(())
     }
-- 
2.43.0


From 5e077d23151108b84d863e5e87904007efaa1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 15/22] fix: erasing a prefix erases only keys below it

---
 src/store/filesystem.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 3b2a841..3aaaebf 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -312,8 +312,12 @@ impl WriteableStore for FilesystemHierarchy {
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
+        let is_dir = |path: &Path| -> Result<bool> {
+            Ok(metadata_if_exists(path)?.map_or(false, |m| m.is_dir()))
+        };
 
-        if metadata_if_exists(&path)?.is_some() {
+        // A key equal to the prefix is not below it.
+        if is_dir(&path)? {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
@@ -327,7 +331,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(metadata_if_exists(&path)?.is_none())
+        Ok(!is_dir(&path)?)
     }
 }
 
-- 
2.43.0


From f03101670c9cb4fc12e093bd518984bc4a74d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 16/22] fix: failing to write the end of a value is reported

---
 src/chunk.rs            | 15 ++++++++++-----
 src/storage.rs          | 14 +++++++++++---
 src/store/filesystem.rs |  7 +++++--
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 5727bfa..4be8588 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -325,13 +325,18 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
 
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
-    fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
+    fn write_chunk(mut buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
         check_chunk(array_meta, chunk)?;
 
-        let mut compressor = array_meta.compressor.encoder(buffer);
-        chunk.write_data(&mut compressor, array_meta)?;
-
-        Ok(())
+        // Compressors finish when dropped, which can not report that writing
+        // to the buffer failed. Finish in memory before writing.
+        let mut value = Vec::new();
+        {
+            let mut compressor = array_meta.compressor.encoder(&mut value);
+            chunk.write_data(&mut compressor, array_meta)?;
+        }
+        buffer.write_all(&value)?;
+        buffer.flush()
     }
 }
 
diff --git a/src/storage.rs b/src/storage.rs
index ba0e60c..395d3c0 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -6,6 +6,7 @@ use std::io::{
 };
 
 use semver::VersionReq;
+use serde::Serialize;
 use serde_json::Value;
 
 use crate::{
@@ -142,6 +143,13 @@ fn merge_top_level(a: &mut Value, b: JsonObject) {
     }
 }
 
+/// Write a complete JSON value. Dropping a buffered writer would flush it as
+/// well, but not report failing to.
+fn write_json<W: Write, T: Serialize>(mut writer: W, value: &T) -> Result<(), Error> {
+    serde_json::to_writer(&mut writer, value)?;
+    writer.flush()
+}
+
 impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
     fn get_version(&self) -> Result<VersionReq, Error> {
         let vers_str = self
@@ -380,7 +388,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         }
         if merged != existing {
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+                write_json(writer, &merged)
             })?;
         }
         Ok(())
@@ -403,7 +411,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             Ok(())
         } else {
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+                write_json(writer, &GroupMetadata::default())
             })
         }
     }
@@ -425,7 +433,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             ))
         } else {
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+                write_json(writer, array_meta)
             })
         }
     }
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 3aaaebf..d43a27b 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -10,6 +10,7 @@ use std::io::{
     Error,
     ErrorKind,
     Result,
+    Write,
 };
 use std::path::{
     Path,
@@ -100,8 +101,10 @@ impl FilesystemHierarchy {
                 .open(entry_point_path)?;
             file.lock_exclusive()?;
 
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, &metadata)?;
+            // Dropping the writer would not report failing to flush.
+            writer.flush()?;
             metadata
         };
 
-- 
2.43.0


From cbc1d9f6fa41d420813f9e61c4e9bdbb386ca359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 17/22] fix: failing to access a hierarchy is not taken for its
 absence

---
 src/store/filesystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index d43a27b..e397b58 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -89,7 +89,7 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let entry_point_metadata = if entry_point_path.exists() {
+        let entry_point_metadata = if metadata_if_exists(&entry_point_path)?.is_some() {
             Self::read_entry_point_metadata(&base_path)?
         } else {
             fs::create_dir_all(&base_path)?;
-- 
2.43.0


From 899e3ddc52a3dc6c20d8733b746947ad1c641955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 18/22] fix: raw data types are written without padding

---
 src/data_type.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 5352f83..8aa4d4b 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -1,5 +1,3 @@
-use std::io::Write;
-
 use half::f16;
 use serde::{
     Deserialize,
@@ -128,6 +126,7 @@ impl Serialize for DataType {
         S: serde::Serializer,
     {
         use DataType::*;
+        let raw;
         let mut buf = [0u8; 32];
         let s = match self {
             Bool => "bool",
@@ -156,8 +155,8 @@ impl Serialize for DataType {
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
             Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
+                raw = format!("r{}", size);
+                raw.as_str()
             }
         };
         serializer.serialize_str(s)
-- 
2.43.0


From ad49892fdd973006ae04013dfdc6bda91eb8b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 19/22] fix: unknown data types are refused, not a panic

---
 src/data_type.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 8aa4d4b..8036057 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -205,19 +205,23 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                 }
             }
             dtype if dtype.len() == 3 => {
+                let invalid = || {
+                    serde::de::Error::invalid_value(serde::de::Unexpected::Str(value), &self)
+                };
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
-                match chars.next().unwrap() {
+                let mut next_char = || chars.next().ok_or_else(invalid);
+                let endian = Endian::deserial_char(next_char()?).ok_or_else(invalid)?;
+                match next_char()? {
                     'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(next_char()?).ok_or_else(invalid)?;
                         DataType::Int { size, endian }
                     }
                     'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(next_char()?).ok_or_else(invalid)?;
                         DataType::UInt { size, endian }
                     }
                     'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = FloatSize::deserial_char(next_char()?).ok_or_else(invalid)?;
                         DataType::Float { size, endian }
                     }
                     _ => {
-- 
2.43.0


From cdb6fa06c11704b54f5c4eb7c2b3674883ce5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 20/22] fix: chunk grids that do not divide the array are
 refused on loading

---
 src/lib.rs     | 12 ++++++++++++
 src/storage.rs |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5b5ceb1..07e326e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -499,6 +499,18 @@ impl ArrayMetadata {
             })
     }
 
+    /// Check that the chunk grid divides the array into chunks.
+    pub(crate) fn check_chunk_grid(&self) -> Result<(), Error> {
+        let chunk_shape = &self.chunk_grid.chunk_shape;
+        if chunk_shape.len() != self.shape.len() || chunk_shape.contains(&0) {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Chunk shape does not divide the array into chunks",
+            ));
+        }
+        Ok(())
+    }
+
     /// Get the upper bound extent of grid coordinates.
     pub fn get_grid_extent(&self) -> GridCoord {
         self.shape
diff --git a/src/storage.rs b/src/storage.rs
index 395d3c0..13447a9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -183,6 +183,7 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             // way around.
             return Err(MetadataError::UnknownRequiredExtension(ext.clone()).into());
         }
+        metadata.check_chunk_grid()?;
         Ok(metadata)
     }
 
-- 
2.43.0


From 87cacb879b712c80b31d221e107c922b31ffaffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 21/22] fix: bzip2 block sizes outside 1 to 9 do not panic

---
 src/compression/bzip.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..3f9ae6c 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -20,6 +20,18 @@ pub struct Bzip2Compression {
     block_size: u8,
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured one is not in [1, 9], the
+    /// sizes that bzip2 supports.
+    fn get_effective_block_size(&self) -> BzCompression {
+        let block_size = match self.block_size {
+            1..=9 => self.block_size,
+            _ => default_bzip_block_size(),
+        };
+        BzCompression::new(u32::from(block_size))
+    }
+}
+
 fn default_bzip_block_size() -> u8 {
     9
 }
@@ -38,10 +50,7 @@ impl Compression for Bzip2Compression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        Box::new(BzEncoder::new(
-            w,
-            BzCompression::new(u32::from(self.block_size)),
-        ))
+        Box::new(BzEncoder::new(w, self.get_effective_block_size()))
     }
 }
 
-- 
2.43.0


From f35163a5c5b9a8f49ae592773be061a85fd2a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:18 +0000
Subject: [PATCH 22/22] fix: xz presets outside 0 to 9 do not panic

---
 src/compression/xz.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..866a78b 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -19,6 +19,21 @@ pub struct XzCompression {
     preset: i32,
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured one is not a level in [0, 9],
+    /// possibly combined with the flag for extreme compression.
+    fn get_effective_preset(&self) -> u32 {
+        const PRESET_EXTREME: u32 = 1 << 31;
+
+        let preset = self.preset as u32;
+        if preset & !PRESET_EXTREME <= 9 {
+            preset
+        } else {
+            default_xz_preset() as u32
+        }
+    }
+}
+
 fn default_xz_preset() -> i32 {
     6
 }
@@ -37,8 +52,7 @@ impl Compression for XzCompression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset()))
     }
 }
 
-- 
2.43.0

