From f7e88e0a95fca9f4c2a7d85d5206741c056fb27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 01/22] fix: read the ninth byte of a field relative to the
 field's own first byte

read_bytes! added the byte offset twice when a field spans nine bytes, so
such a field at byte offset > 0 was read from unrelated memory.
---
 src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
-- 
2.43.0


From 2cf5e48182ec5ad88b8a5b2c6db5557f87a34dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 02/22] fix: write the ninth byte of a field relative to the
 field's own first byte

write_bytes! ignored the byte offset for the last byte of a field that spans
nine bytes, overwriting an unrelated field.
---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..7184fd7 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,7 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From 58e16e651fa9307431d6f5871bebc416e7fc5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 03/22] fix: confine values that exceed the field width to the
 field's own bits

---
 src/bytewriter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 7184fd7..0522431 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -29,9 +29,7 @@ macro_rules! write_bytes {
         let bit_offset = $offset % 8;
 
         let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = masked!(value_to_store, $num_bits);
-        }
+        value_to_store = masked!(value_to_store, $num_bits);
         let mut value_mask = masked!(u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From 35aae6ee6efd55f35b4ad0526420ce5df23d8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 04/22] fix: make the short form of write_bytes compile

---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 0522431..593161e 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -76,7 +76,7 @@ macro_rules! write_bytes {
         write_bytes!($T; $value, $data, $offset, ::std::mem::size_of::<$T>() * 8)
     };
     ($T:tt; $value:expr, $data:expr) => {
-        write_bytes!($T, $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
+        write_bytes!($T; $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
     };
 }
 
-- 
2.43.0


From b2f34d6a277f986058d5c4684d680d779e6a743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 05/22] fix: reject out of bounds indexes in Vector::at and
 Vector::at_mut

---
 src/vector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 3300250..6709a31 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -141,15 +141,25 @@ where
 
     /// Return an accessor handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at(&self, index: usize) -> <T as Struct>::Item {
+        assert!(index < self.len(), "index out of bounds");
         T::create(&self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
     /// Return a mutable handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at_mut(&mut self, index: usize) -> <T as Struct>::ItemMut {
+        assert!(index < self.len(), "index out of bounds");
         T::create_mut(&mut self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
-- 
2.43.0


From 91789a5eefd9276bbc4678cda5bd8346c9951410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 06/22] fix: reject ArrayView indexes and ranges whose byte
 offset overflows

---
 src/arrayview.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 4caa21c..fed8aba 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -89,9 +89,8 @@ where
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
-        let index = self.data_index(index);
-        assert!(index + <T as Struct>::SIZE_IN_BYTES <= self.data.len());
-        T::create(&self.data[index..])
+        assert!(index < self.len(), "index out of bounds");
+        T::create(&self.data[self.data_index(index)..])
     }
 
     /// Slice this array view by a given range.
@@ -102,11 +101,11 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let data_start = match range.start_bound() {
             Bound::Included(&idx) => self.data_index(idx),
-            Bound::Excluded(&idx) => self.data_index(idx + 1),
+            Bound::Excluded(&idx) => self.data_index(idx) + <T as Struct>::SIZE_IN_BYTES,
             Bound::Unbounded => 0,
         };
         let data_end = match range.end_bound() {
-            Bound::Included(&idx) => self.data_index(idx + 1),
+            Bound::Included(&idx) => self.data_index(idx) + <T as Struct>::SIZE_IN_BYTES,
             Bound::Excluded(&idx) => self.data_index(idx),
             Bound::Unbounded => self.data.len(),
         };
@@ -124,6 +123,8 @@ where
     }
 
     fn data_index(&self, index: usize) -> usize {
+        // also keeps the multiplication below from overflowing
+        assert!(index <= self.len(), "index out of bounds");
         index * <T as Struct>::SIZE_IN_BYTES
     }
 }
-- 
2.43.0


From d72caba0d4dbda36830de0a9de00d81a5f8782ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 07/22] fix: reject out of range and inverted ranges in
 MultiArrayView::slice

---
 src/multiarrayview.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index ddedab0..223be03 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -74,18 +74,19 @@ where
     ///
     /// Panics if the range is outside of bounds of array view.
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
-        let index_start = match range.start_bound() {
+        let start = match range.start_bound() {
             Bound::Included(&idx) => idx,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Excluded(&idx) => idx.saturating_add(1),
             Bound::Unbounded => 0,
         };
-        // include one more element (sentinel)
-        let index_end = match range.end_bound() {
-            Bound::Included(&idx) => idx + 2,
-            Bound::Excluded(&idx) => idx + 1,
-            Bound::Unbounded => self.index.len(),
+        let end = match range.end_bound() {
+            Bound::Included(&idx) => idx.saturating_add(1),
+            Bound::Excluded(&idx) => idx,
+            Bound::Unbounded => self.len(),
         };
-        Self::new(self.index.slice(index_start..index_end), self.data)
+        assert!(start <= end && end <= self.len(), "range out of bounds");
+        // include one more element (sentinel)
+        Self::new(self.index.slice(start..=end), self.data)
     }
 
     /// Returns an iterator through the indexed items of the array.
-- 
2.43.0


From c512d5e8c9885f4533b6dc9df543749a49f4b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 08/22] fix: report the exact remaining length in size_hint of
 the view iterators

---
 src/arrayview.rs      | 5 +++++
 src/multiarrayview.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index fed8aba..02a7b89 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -227,6 +227,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> iter::ExactSizeIterator for ArrayViewIter<'a, T>
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index 223be03..db9a704 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -241,6 +241,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, Idx, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Idx, Ts>
-- 
2.43.0


From d13be1c1d74913eafbd45e4baa3c39b3248778e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 09/22] fix: keep the resources of in-memory subdirectories
 reachable from the parent storage

---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..571e582 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,8 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    // Shared with the storages of all subdirectories.
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +46,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::new(MemoryStorage::default()),
             path: path.into(),
         })
     }
@@ -55,7 +56,10 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From 35d679c7a96c6898f1999d879478761bd751e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 10/22] fix: replace an in-memory resource that is written
 again instead of appending to it

---
 src/memstorage.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 571e582..b161974 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -17,6 +17,9 @@ struct MemoryStorage {
     streams: RefCell<BTreeMap<PathBuf, MemoryStorageStream>>,
     // Data of resources that were opened for reading.
     resources: RefCell<BTreeMap<PathBuf, Rc<Vec<u8>>>>,
+    // Data of resources that were opened for reading and written again since then. It is kept,
+    // because slices of it may still be in use.
+    retired: RefCell<Vec<Rc<Vec<u8>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -100,13 +103,14 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        if let Some(data) = self.storage.resources.borrow_mut().remove(&resource_path) {
+            self.storage.retired.borrow_mut().push(data);
+        }
+        let stream = Rc::new(RefCell::new(Cursor::new(Vec::new())));
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From 0729c438514530c56a4b0f3d92b8ab27190fd547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 11/22] fix: write a file resource again without changing the
 mapped old one

---
 src/filestorage.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 971cc93..4df83a4 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -14,6 +14,9 @@ use std::slice;
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: RefCell<BTreeMap<String, Mmap>>,
+    // Mappings of files that were written again since they were mapped. They are kept, because
+    // slices of them may still be in use.
+    retired: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
@@ -29,6 +32,13 @@ impl MemoryMappedFileStorage {
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
         Ok(&extended_lifetime_data)
     }
+
+    /// Makes the next read of `path` map the file again.
+    fn retire(&self, path: &str) {
+        if let Some(file_mmap) = self.maps.borrow_mut().remove(path) {
+            self.retired.borrow_mut().push(file_mmap);
+        }
+    }
 }
 
 impl Stream for File {}
@@ -83,6 +93,13 @@ impl ResourceStorage for FileResourceStorage {
             fs::create_dir_all(self.path.clone())?;
         }
         let resource_path = self.path.join(resource_name);
+        // Do not truncate the old file, it may be mapped: a new file takes its place instead.
+        if resource_path.exists() {
+            fs::remove_file(&resource_path)?;
+        }
+        if let Some(p) = resource_path.to_str() {
+            self.storage.retire(p);
+        }
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
     }
-- 
2.43.0


From 11dba2637c5ffbec992e92dec9beed2f5dd3a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 12/22] fix: report a corrupt size header instead of
 overflowing

---
 src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..90be772 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -108,7 +108,7 @@ pub trait ResourceStorage {
         }
 
         let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if data.len() - mem::size_of::<SizeType>() - PADDING_SIZE != size {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From 7f5bce0c8762571623eb1fd509edecd2a641ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 13/22] fix: do not let an unfinished resource pass for an
 empty one

---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 90be772..9fe1ac9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -283,10 +283,11 @@ impl<'a> ResourceHandle<'a> {
         stream: Rc<RefCell<Stream>>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then it holds a size which no resource can have, otherwise an
+        // unfinished resource could be read as an empty one.
         {
             let mut mut_stream = stream.borrow_mut();
-            write_size(0u64, mut_stream.deref_mut())?;
+            write_size(SizeType::max_value(), mut_stream.deref_mut())?;
         }
         Ok(Self {
             stream: Some(stream),
-- 
2.43.0


From 16b6ddbb2f7c867460ec5d1fcc5e5ff50deafe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 14/22] fix: return an error instead of panicking when closing
 a writer fails

---
 src/multivector.rs | 14 +++++++++++---
 src/storage.rs     | 11 +++++++++--
 src/vector.rs      | 13 ++++++++++---
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..b4bf722 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -199,9 +199,17 @@ where
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
         let name: String = self.data_handle.name().into();
         let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
-        self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
-        self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        // add sentinel for last item
+        if let Err(e) = self.add_to_index().and_then(|_| self.flush()) {
+            self.index.abort();
+            self.data_handle.abort();
+            return Err(into_storage_error(e));
+        }
+        let data_handle = &mut self.data_handle;
+        let index_view = self.index.close().map_err(|e| {
+            data_handle.abort();
+            e
+        })?;
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 9fe1ac9..412673e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -319,12 +319,14 @@ impl<'a> ResourceHandle<'a> {
 
     /// Close the underlying stream and write the header containing the size in
     /// bytes of written data.
+    ///
+    /// The handle is not open anymore afterwards, even if an error is returned.
     pub fn close(&mut self) -> Result<&'a [u8], ResourceStorageError> {
         {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -341,11 +343,16 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
 
+    /// Gives up the underlying stream without finishing the resource, which
+    /// can not be read then.
+    pub fn abort(&mut self) {
+        self.stream = None;
+    }
+
     pub fn name(&self) -> &str {
         &self.name
     }
diff --git a/src/vector.rs b/src/vector.rs
index 6709a31..d10ee6d 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -344,13 +344,20 @@ where
     ///
     /// An external vector *must* be closed, otherwise it will panic on drop
     pub fn close(mut self) -> Result<ArrayView<'a, T>, ResourceStorageError> {
-        self.flush().map_err(|e| {
-            ResourceStorageError::from_io_error(e, self.resource_handle.name().into())
-        })?;
+        if let Err(e) = self.flush() {
+            self.abort();
+            let name = self.resource_handle.name().into();
+            return Err(ResourceStorageError::from_io_error(e, name));
+        }
         self.resource_handle
             .close()
             .map(|data| ArrayView::new(data))
     }
+
+    /// Gives up writing after an error, without finishing the resource.
+    pub(crate) fn abort(&mut self) {
+        self.resource_handle.abort();
+    }
 }
 
 impl<T> fmt::Debug for ExternalVector<'_, T>
-- 
2.43.0


From cef8cf35a9bff846f9362258b040b34cedad53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 15/22] fix: return an error instead of panicking when creating
 a multivector fails

---
 src/storage.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 412673e..a875a19 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -172,18 +172,26 @@ where
     // create index
     let index_name = format!("{}_index", resource_name);
     let index_schema = format!("index({})", schema);
-    let index = create_external_vector(storage, &index_name, &index_schema)?;
+    let mut index = create_external_vector(storage, &index_name, &index_schema)?;
 
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
+    let create_data_handle = || {
+        // write schema
+        let schema_name = format!("{}.schema", resource_name);
+        let stream = storage.create_output_stream(&schema_name)?;
+        stream.borrow_mut().write_all(schema.as_bytes())?;
+
+        let data_writer = storage.create_output_stream(resource_name)?;
+        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
+    };
 
     // create multi vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(MultiVector::new(index, handle))
+    match create_data_handle() {
+        Ok(handle) => Ok(MultiVector::new(index, handle)),
+        Err(e) => {
+            index.abort();
+            Err(e)
+        }
+    }
 }
 
 /// Creates a new archive in resource storage.
-- 
2.43.0


From 3790cc1ed7decf87c6d89258889d50a7f704ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 16/22] fix: do not create a struct accessor from too few bytes

---
 src/archive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..26db142 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -224,6 +224,7 @@ macro_rules! define_struct {
             #[inline]
             fn create(data : &'a[u8]) -> Self::Item
             {
+                assert!(data.len() >= $size_in_bytes, "not enough data for a struct");
                 Self::Item{ data : data.as_ptr(), _phantom : $crate::marker::PhantomData }
             }
 
@@ -232,6 +233,7 @@ macro_rules! define_struct {
             #[inline]
             fn create_mut(data: &'a mut[u8]) -> Self::ItemMut
             {
+                assert!(data.len() >= $size_in_bytes, "not enough data for a struct");
                 Self::ItemMut{ data : data.as_mut_ptr(), _phantom : $crate::marker::PhantomData }
             }
         }
-- 
2.43.0


From 888b11c77cd47ec28da9b67ff74b1123d4f96e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 17/22] fix: reject offsets that do not fit into the index
 instead of truncating them

---
 src/archive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index 26db142..768aa7d 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -327,7 +327,9 @@ macro_rules! define_index {
 
             #[inline]
             fn set_index(mut data: Self::ItemMut, value: usize) {
-                data.set_value(value as u64);
+                let value = value as u64;
+                assert!(masked!(value, $size_in_bits) == value, "value does not fit into index");
+                data.set_value(value);
             }
         }
     };
-- 
2.43.0


From 9ee4421b6242226fcb3efbd9f4600eacca2f5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 18/22] fix: read empty files from the file storage

---
 src/filestorage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 4df83a4..f24ab9d 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -23,6 +23,10 @@ impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
         if !self.maps.borrow().contains_key(path) {
             let file = File::open(path)?;
+            if file.metadata()?.len() == 0 {
+                // an empty file cannot be mapped
+                return Ok(&[]);
+            }
             let file_mmap = unsafe { Mmap::map(&file)? };
             self.maps.borrow_mut().insert(path.into(), file_mmap);
         }
-- 
2.43.0


From 2ff1829ce473fd14b66ca3350b7f06830906b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 19/22] fix: share mapped files between a file storage and its
 subdirectories

A resource rewritten through a subdirectory was still read with its old
content through the parent storage, and vice versa.
---
 src/filestorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index f24ab9d..29d0591 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -50,7 +50,8 @@ impl Stream for File {}
 /// Resource storage on disk using memory mapped files.
 #[derive(Debug)]
 pub struct FileResourceStorage {
-    storage: MemoryMappedFileStorage,
+    // Shared with the storages of all subdirectories.
+    storage: Rc<MemoryMappedFileStorage>,
     path: PathBuf,
 }
 
@@ -59,7 +60,7 @@ impl FileResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryMappedFileStorage::default(),
+            storage: Rc::new(MemoryMappedFileStorage::default()),
             path: path.into(),
         })
     }
@@ -67,7 +68,10 @@ impl FileResourceStorage {
 
 impl ResourceStorage for FileResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From c6fb906f292b5fb04b145212f4d5839adcc8f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 20/22] fix: create the directories of a resource with slashes
 in its name

Keys of resources can be slash-separated. The file storage could not
create such a resource unless the directory existed already.
---
 src/filestorage.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 29d0591..ba40121 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -97,10 +97,13 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-        if !self.path.exists() {
-            fs::create_dir_all(self.path.clone())?;
-        }
         let resource_path = self.path.join(resource_name);
+        // The name may contain directories itself.
+        if let Some(dir) = resource_path.parent() {
+            if !dir.exists() {
+                fs::create_dir_all(dir)?;
+            }
+        }
         // Do not truncate the old file, it may be mapped: a new file takes its place instead.
         if resource_path.exists() {
             fs::remove_file(&resource_path)?;
-- 
2.43.0


From 796c242afb1cfb0804dcad5fe8191c35af537352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:31 +0000
Subject: [PATCH 21/22] fix: a resource read while it was being written stayed
 unreadable after it was completed

---
 src/filestorage.rs |  5 +++++
 src/memstorage.rs  | 15 +++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index ba40121..3596110 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -21,6 +21,11 @@ struct MemoryMappedFileStorage {
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
+        let mapped_len = self.maps.borrow().get(path).map(|data| data.len() as u64);
+        if mapped_len.is_some() && mapped_len != Some(fs::metadata(path)?.len()) {
+            // the file was opened before it was completely written
+            self.retire(path);
+        }
         if !self.maps.borrow().contains_key(path) {
             let file = File::open(path)?;
             if file.metadata()?.len() == 0 {
diff --git a/src/memstorage.rs b/src/memstorage.rs
index b161974..d9e1ed5 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -73,18 +73,25 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self.storage.resources.borrow().contains_key(&resource_path) {
-            let streams = self.storage.streams.borrow();
-            let stream = streams.get(&resource_path);
+        let streams = self.storage.streams.borrow();
+        let stream = streams.get(&resource_path);
+        // The resource may have been opened before it was completely written.
+        let is_current = match (self.storage.resources.borrow().get(&resource_path), stream) {
+            (Some(data), Some(stream)) => **data == *stream.borrow().get_ref(),
+            _ => false,
+        };
+        if !is_current {
             match stream {
                 Some(stream) => {
                     // Resource is not yet opened, but there is a stream it was written to
                     // => copy the stream as resource data.
                     let data = Rc::new(stream.borrow().get_ref().clone());
-                    self.storage
+                    let old_data = self
+                        .storage
                         .resources
                         .borrow_mut()
                         .insert(resource_path.clone(), data);
+                    self.storage.retired.borrow_mut().extend(old_data);
                 }
                 None => {
                     return Err(io::Error::new(
-- 
2.43.0


From 9a23296f7d9bb6dc9c05ccfdda3284a16da5c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:27 +0000
Subject: [PATCH 22/22] fix: a directory was taken for an existing resource by
 the file storage

---
 src/filestorage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 3596110..2382efb 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -80,12 +80,12 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-        self.path.join(resource_name).exists()
+        self.path.join(resource_name).is_file()
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !resource_path.exists() {
+        if !resource_path.is_file() {
             return Err(io::Error::new(
                 io::ErrorKind::NotFound,
                 String::from(resource_path.to_str().unwrap_or(resource_name)),
-- 
2.43.0

