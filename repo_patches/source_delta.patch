From 3024486e23e4c9f8a6ab7476f7017454eb404d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/11] fix: serialize every element of an array of virtually
 serializable objects

The dispatch of virtually serializable types ignored the element count, so
only the first element of a std::vector or std::array of polymorphic objects
held by value was sized, packed and unpacked.
---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index 247e0c4..c8ac236 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -222,7 +222,10 @@ struct SerializerDispatchNonByte {
       s.setVirtualDisabled(false);
       applyStatic(s, val, num);
     } else {
-      dispatch::vrt::virtualSerialize(val, s);
+      for (SerialSizeType i = 0; i < num; i++) {
+        T* elm = val + i;
+        dispatch::vrt::virtualSerialize(elm, s);
+      }
     }
   }
 
-- 
2.43.0


From 09b157b15bd145f3ea08fabb5391ac8218a5e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 02/11] fix: destroy the temporaries reconstructed while
 unpacking containers

Every container that unpacks through a temporary released the temporary's
storage without running its destructor, leaking whatever it owned. The
storage now owns the temporary it holds.
---
 .../kokkos_unordered_map_serialize.h          |  8 ++---
 src/checkpoint/container/list_serialize.h     |  8 ++---
 src/checkpoint/container/map_serialize.h      |  4 +--
 src/checkpoint/container/optional_serialize.h |  9 ++---
 src/checkpoint/container/queue_serialize.h    |  5 +--
 src/checkpoint/container/variant_serialize.h  |  4 +--
 src/checkpoint/container/vector_serialize.h   |  8 ++---
 src/checkpoint/dispatch/allocator.h           | 34 ++++++++++++++++++-
 8 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index 8118345..578d21b 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -91,10 +91,6 @@ void deserializeInsertElems(
 ) {
   using KeyAlloc = dispatch::Allocator<Key>;
   using ValueAlloc = dispatch::Allocator<Value>;
-  using KeyReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<Key>::CleanT>;
-  using ValReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<Value>::CleanT>;
 
   // resize unordered map
   map.rehash(map_capacity);
@@ -102,8 +98,8 @@ void deserializeInsertElems(
   KeyAlloc keyAllocated;
   ValueAlloc valAllocated;
   for (SerialSizeType i = 0; i < map_size; i++) {
-    auto* key = KeyReconstructor::construct(keyAllocated.buf);
-    auto* val = ValReconstructor::construct(valAllocated.buf);
+    auto* key = keyAllocated.construct();
+    auto* val = valAllocated.construct();
 
     s | *key;
     s | *val;
diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 262a08d..d7b12de 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -63,11 +63,9 @@ deserializeOrderedElems(
   isCopyConstructible<ElmT>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  auto* reconstructed = allocated.construct();
   cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
@@ -83,12 +81,10 @@ deserializeOrderedElems(
   isNotCopyConstructible<ElmT>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    auto* reconstructed = allocated.construct();
     s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index a1a2a88..835bd44 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -64,12 +64,10 @@ inline typename std::enable_if_t<
   Serializer& s, ContainerT& cont, typename ContainerT::size_type size
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    auto* reconstructed = allocated.construct();
     s | *reconstructed;
     cont.emplace(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c996286..d77897f 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -52,18 +52,13 @@ namespace checkpoint {
 
 template <typename SerializerT, typename T>
 void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
-  using BoolReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<bool>::CleanT>;
-  using ValReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
   dispatch::Allocator<bool> boolAllocated;
   dispatch::Allocator<T> valAllocated;
 
-  auto* has_value = BoolReconstructor::construct(boolAllocated.buf);
+  auto* has_value = boolAllocated.construct();
   s | *has_value;
   if (*has_value) {
-    auto* value = ValReconstructor::construct(valAllocated.buf);
+    auto* value = valAllocated.construct();
     s | *value;
     optional = *value;
   } else {
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 485fbcc..528ad14 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -53,12 +53,9 @@ namespace checkpoint {
 
 template<typename SerializerT, typename T>
 void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue<T>::size_type size) {
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    auto* reconstructed = allocated.construct();
     s | *reconstructed;
     q.push(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 7c0e69a..f7d7d1b 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -65,10 +65,8 @@ struct SerializeEntry<Arg, Args...> {
     if (entry == cur) {
       if (s.isUnpacking()) {
         using Alloc = dispatch::Allocator<Arg>;
-        using Reconstructor =
-          dispatch::Reconstructor<typename dispatch::CleanType<Arg>::CleanT>;
         Alloc allocated;
-        auto* reconstructed = Reconstructor::construct(allocated.buf);
+        auto* reconstructed = allocated.construct();
         s | *reconstructed;
         v = std::move(*reconstructed);
       } else {
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index ed4478c..91059e4 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -82,11 +82,9 @@ void constructVectorData(
   isNotDefaultConsType<T>* = nullptr, isCopyConstructible<T>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<T>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  auto* reconstructed = allocated.construct();
   vec.resize(vec_size, *reconstructed);
 }
 
@@ -96,12 +94,10 @@ void constructVectorData(
   isNotDefaultConsType<T>* = nullptr, isNotCopyConstructible<T>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<T>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    auto* reconstructed = allocated.construct();
     vec.emplace_back(std::move(*reconstructed));
   }
 }
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index 1083c55..dea542c 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -44,7 +44,9 @@
 #if !defined INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H
 #define INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H
 
+#include "checkpoint/dispatch/clean_type.h"
 #include "checkpoint/dispatch/dispatch.h"
+#include "checkpoint/dispatch/reconstructor.h"
 
 #include <memory>
 
@@ -52,10 +54,40 @@ namespace checkpoint { namespace dispatch {
 
 template <typename T>
 struct Allocator {
+  using CleanT = typename CleanType<T>::CleanT;
+
   Allocator() : buf{Standard::template allocate<T>()} { }
-  ~Allocator() { std::allocator<T>{}.deallocate(reinterpret_cast<T*>(buf), 1); }
+  Allocator(Allocator const&) = delete;
+  Allocator& operator=(Allocator const&) = delete;
+  ~Allocator() {
+    destroy();
+    std::allocator<T>{}.deallocate(reinterpret_cast<T*>(buf), 1);
+  }
+
+  /**
+   * \brief Reconstruct a temporary on the buffer, which destroys the previous
+   * one. The temporary is destroyed along with the allocator.
+   *
+   * \return pointer to the reconstructed temporary
+   */
+  CleanT* construct() {
+    destroy();
+    obj = Reconstructor<CleanT>::construct(buf);
+    return obj;
+  }
 
   SerialByteType* buf;
+
+private:
+  void destroy() {
+    if (obj != nullptr) {
+      CleanT* old = obj;
+      obj = nullptr;
+      old->~CleanT();
+    }
+  }
+
+  CleanT* obj = nullptr;
 };
 
 }} // namespace checkpoint::dispatch
-- 
2.43.0


From 553000be45c40eca1d330973929d27e05a7e1cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 03/11] fix: replace the contents of containers deserialized in
 place

Maps, sets, queues, and vectors, lists and deques of elements that cannot be
copied kept their previous elements when deserialized in place (and the vector
then read elements that had not been serialized).
---
 src/checkpoint/container/list_serialize.h   | 1 +
 src/checkpoint/container/map_serialize.h    | 1 +
 src/checkpoint/container/queue_serialize.h  | 3 +++
 src/checkpoint/container/vector_serialize.h | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index d7b12de..1eb71eb 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -83,6 +83,7 @@ deserializeOrderedElems(
   using Alloc = dispatch::Allocator<ElmT>;
 
   Alloc allocated;
+  cont.clear();
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     auto* reconstructed = allocated.construct();
     s | *reconstructed;
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index 835bd44..139d97a 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -66,6 +66,7 @@ inline typename std::enable_if_t<
   using Alloc = dispatch::Allocator<ElmT>;
 
   Alloc allocated;
+  cont.clear();
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     auto* reconstructed = allocated.construct();
     s | *reconstructed;
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 528ad14..15c03be 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -54,6 +54,9 @@ namespace checkpoint {
 template<typename SerializerT, typename T>
 void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue<T>::size_type size) {
   dispatch::Allocator<T> allocated;
+  while (!q.empty()) {
+    q.pop();
+  }
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     auto* reconstructed = allocated.construct();
     s | *reconstructed;
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 91059e4..bf53aa6 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -96,6 +96,7 @@ void constructVectorData(
   using Alloc = dispatch::Allocator<T>;
 
   Alloc allocated;
+  vec.clear();
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     auto* reconstructed = allocated.construct();
     vec.emplace_back(std::move(*reconstructed));
-- 
2.43.0


From 38cd0e6d18940e889f12ca26cc1319cb1de6d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 04/11] fix: do not free the caller's object buffer when
 deserializing fails

---
 src/checkpoint/dispatch/dispatch.impl.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch.impl.h b/src/checkpoint/dispatch/dispatch.impl.h
index 44aac6a..052c544 100644
--- a/src/checkpoint/dispatch/dispatch.impl.h
+++ b/src/checkpoint/dispatch/dispatch.impl.h
@@ -274,8 +274,20 @@ buffer::ImplReturnType serializeType(T& target, BufferObtainFnType fn) {
 
 template <typename T>
 T* deserializeType(SerialByteType* data, SerialByteType* allocBuf) {
+  // If unpacking fails, destroy the object, but free only memory that was
+  // allocated here: \c allocBuf belongs to the caller
+  auto cleanup = [allocBuf](T* t) {
+    if (allocBuf) {
+      t->~T();
+    } else {
+      delete t;
+    }
+  };
+
   auto mem = allocBuf ? allocBuf : Standard::allocate<T>();
-  auto t_buf = std::unique_ptr<T>(Standard::construct<T>(mem));
+  auto t_buf = std::unique_ptr<T, decltype(cleanup)>(
+    Standard::construct<T>(mem), cleanup
+  );
   T* traverser =
     Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
   t_buf.release();
-- 
2.43.0


From b568e0ef9b850b27f0049c59bc41a0864184bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 05/11] fix: release the object when deserializing from a file
 or a stream fails

---
 src/checkpoint/checkpoint_api.impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 863472e..13bf35e 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -109,11 +109,11 @@ void serializeToFile(T& target, std::string const& file) {
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
   auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t_buf, buffer::IOBuffer::ReadFromFileTag{}, file
+  auto t = std::unique_ptr<T>(dispatch::Standard::construct<T>(mem));
+  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
+    t.get(), buffer::IOBuffer::ReadFromFileTag{}, file
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T>
@@ -134,11 +134,11 @@ void serializeToStream(T& target, StreamT& stream) {
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
   auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t_buf, stream
+  auto t = std::unique_ptr<T>(dispatch::Standard::construct<T>(mem));
+  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+    t.get(), stream
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T, typename StreamT>
-- 
2.43.0


From 144ae737126508c25b9b972d645cf1ee559c65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 06/11] fix: close the file when setting up the file buffer
 fails

---
 src/checkpoint/buffer/io_buffer.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 7cad8ec..f9f2fa1 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -218,12 +218,23 @@ void IOBuffer::setupForWrite() {
 void IOBuffer::setupFile() {
   debug_checkpoint("IOBuffer: opening file: %s\n", file_.c_str());
 
-  if (mode_ == ModeEnum::ReadFromFile) {
-    setupForRead();
-  } else if (mode_ == ModeEnum::WriteToFile) {
-    setupForWrite();
-  } else {
-    throw std::runtime_error("Invalid IOBuffer mode");
+  try {
+    if (mode_ == ModeEnum::ReadFromFile) {
+      setupForRead();
+    } else if (mode_ == ModeEnum::WriteToFile) {
+      setupForWrite();
+    } else {
+      throw std::runtime_error("Invalid IOBuffer mode");
+    }
+  } catch (...) {
+    /*
+     * The destructor will not run, so do not leave the file open
+     */
+    if (fd_ != -1) {
+      close(fd_);
+      fd_ = -1;
+    }
+    throw;
   }
 }
 
-- 
2.43.0


From 10ef2cca64f9c8037ccd299ee83bf49cd542b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 07/11] fix: report failures to sync, unmap or close a file as
 std::runtime_error

They were thrown from a destructor, which terminated the program, and left the
mapping and the file open. The file is now closed explicitly, and released even
if one of the steps fails.
---
 src/checkpoint/buffer/io_buffer.cc         | 52 ++++++++++++----------
 src/checkpoint/buffer/io_buffer.h          | 17 ++++++-
 src/checkpoint/checkpoint_api.impl.h       | 14 +++---
 src/checkpoint/serializers/unpacker.h      |  1 +
 src/checkpoint/serializers/unpacker.impl.h |  6 +++
 5 files changed, 59 insertions(+), 31 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index f9f2fa1..fbf7b91 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -247,31 +247,38 @@ void IOBuffer::closeFile() {
   }
 
   auto addr = static_cast<void*>(buffer_);
+  auto const fd = fd_;
 
+  /*
+   * Whatever fails below, the mapping and the file are released, once. The
+   * first failure is reported at the end.
+   */
+  buffer_ = nullptr;
+  fd_ = -1;
+
+  std::string err;
   int ret = 0;
 
   /*
    * msync/msync64 the mapped file causing the file to be written out
    */
   if (mode_ == ModeEnum::WriteToFile) {
-    debug_checkpoint("~IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
+    debug_checkpoint("IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
 
 #   if defined(checkpoint_has_msync64)
     ret = msync64(addr, size_, MS_SYNC);
 
     if (ret != 0) {
-      auto err = std::string("msync64 failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      err = std::string("msync64 failed on file after write: errno=") +
+            std::to_string(errno) + ": " + strerror(errno);
     }
 
 #   else
     ret = msync(addr, size_, MS_SYNC);
 
     if (ret != 0) {
-      auto err = std::string("msync failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      err = std::string("msync failed on file after write: errno=") +
+            std::to_string(errno) + ": " + strerror(errno);
     }
 #   endif
   }
@@ -279,41 +286,40 @@ void IOBuffer::closeFile() {
   /*
    * Unmap the file via munmap/munmap64
    */
-  debug_checkpoint("~IOBuffer: munmap\n");
+  debug_checkpoint("IOBuffer: munmap\n");
 
 # if defined(checkpoint_has_munmap64)
   ret = munmap64(addr, size_);
 
-  if (ret != 0) {
-    auto err = std::string("munmap64 failed on after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+  if (ret != 0 and err.empty()) {
+    err = std::string("munmap64 failed on after write: errno=") +
+          std::to_string(errno) + ": " + strerror(errno);
   }
 
 # else
   ret = munmap(addr, size_);
 
-  if (ret != 0) {
-    auto err = std::string("munmap failed on file after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+  if (ret != 0 and err.empty()) {
+    err = std::string("munmap failed on file after write: errno=") +
+          std::to_string(errno) + ": " + strerror(errno);
   }
 # endif
 
   /*
    * Finally, close the file. We are done.
    */
-  debug_checkpoint("~IOBuffer: closing file\n");
+  debug_checkpoint("IOBuffer: closing file\n");
 
-  ret = close(fd_);
+  ret = close(fd);
 
-  if (ret != 0) {
-    auto err = std::string("close on file descriptor failed: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+  if (ret != 0 and err.empty()) {
+    err = std::string("close on file descriptor failed: errno=") +
+          std::to_string(errno) + ": " + strerror(errno);
   }
 
-  fd_ = -1;
+  if (not err.empty()) {
+    throw std::runtime_error(err);
+  }
 }
 
 }} /* end namespace checkpoint::buffer */
diff --git a/src/checkpoint/buffer/io_buffer.h b/src/checkpoint/buffer/io_buffer.h
index 43a5db6..2bce4be 100644
--- a/src/checkpoint/buffer/io_buffer.h
+++ b/src/checkpoint/buffer/io_buffer.h
@@ -47,6 +47,7 @@
 #include "checkpoint/common.h"
 #include "checkpoint/buffer/buffer.h"
 
+#include <exception>
 #include <string>
 
 namespace checkpoint { namespace buffer {
@@ -79,13 +80,25 @@ public:
 
 private:
   void setupFile();
-  void closeFile();
   void setupForRead();
   void setupForWrite();
 
 public:
 
-  virtual ~IOBuffer() { closeFile(); }
+  virtual ~IOBuffer() {
+    try {
+      closeFile();
+    } catch (std::exception const&) {
+      // A destructor cannot report the failure: call closeFile() for that
+    }
+  }
+
+  /**
+   * \brief Write out the file if it was opened for writing, unmap it and close
+   * it. The buffer can no longer be used. Throws \c std::runtime_error if any
+   * of this fails.
+   */
+  void closeFile();
 
   virtual SerialByteType* getBuffer() const override {
     return buffer_;
diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 13bf35e..51a2389 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -101,26 +101,28 @@ std::size_t getMemoryFootprint(T& target, std::size_t size_offset) {
 template <typename T>
 void serializeToFile(T& target, std::string const& file) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
+  auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  // Close the file explicitly to report any failure
+  p.extractPackedBuffer()->closeFile();
 }
 
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
   auto mem = dispatch::Standard::allocate<T>();
   auto t = std::unique_ptr<T>(dispatch::Standard::construct<T>(mem));
-  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t.get(), buffer::IOBuffer::ReadFromFileTag{}, file
-  );
+  deserializeInPlaceFromFile<T>(file, t.get());
   return t;
 }
 
 template <typename T>
 void deserializeInPlaceFromFile(std::string const& file, T* t) {
-  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t, buffer::IOBuffer::ReadFromFileTag{}, file
+  auto u = dispatch::Traverse::with<T, UnpackerBuffer<buffer::IOBuffer>>(
+    *t, buffer::IOBuffer::ReadFromFileTag{}, file
   );
+  // Close the file explicitly to report any failure
+  u.extractBuffer()->closeFile();
 }
 
 template <typename T, typename StreamT>
diff --git a/src/checkpoint/serializers/unpacker.h b/src/checkpoint/serializers/unpacker.h
index 85e9a85..a3bde99 100644
--- a/src/checkpoint/serializers/unpacker.h
+++ b/src/checkpoint/serializers/unpacker.h
@@ -60,6 +60,7 @@ struct UnpackerBuffer : MemorySerializer {
   explicit UnpackerBuffer(Args&&... args);
 
   void contiguousBytes(void* ptr, SerialSizeType size, SerialSizeType num_elms);
+  BufferPtrType extractBuffer();
   SerialSizeType usedBufferSize() const;
 
 private:
diff --git a/src/checkpoint/serializers/unpacker.impl.h b/src/checkpoint/serializers/unpacker.impl.h
index ad2429b..2bccec5 100644
--- a/src/checkpoint/serializers/unpacker.impl.h
+++ b/src/checkpoint/serializers/unpacker.impl.h
@@ -98,6 +98,12 @@ void UnpackerBuffer<BufferT>::contiguousBytes(
   usedSize_ += len;
 }
 
+template <typename BufferT>
+typename UnpackerBuffer<BufferT>::BufferPtrType
+UnpackerBuffer<BufferT>::extractBuffer() {
+  return std::move(buffer_);
+}
+
 template <typename BufferT>
 SerialSizeType UnpackerBuffer<BufferT>::usedBufferSize() const {
   return usedSize_;
-- 
2.43.0


From 82a05e1bc2da8762d0cb1dc4626e880e1db7190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 08/11] fix: support virtually serializable objects in any
 standard stream

They were registered only for serializers on std::ostream and std::istream, so
serializing them to a derived stream type such as std::stringstream failed.
---
 src/checkpoint/checkpoint_api.impl.h | 29 ++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 51a2389..68f59d5 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -49,7 +49,10 @@
 #include "checkpoint/checkpoint_api.h"
 #include "buffer/buffer.h"
 
+#include <istream>
 #include <memory>
+#include <ostream>
+#include <type_traits>
 
 namespace checkpoint {
 
@@ -125,28 +128,42 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
   u.extractBuffer()->closeFile();
 }
 
+namespace detail {
+
+// Virtually serialized types are registered for serializers on the standard
+// stream base classes: use these for any stream that derives from them
+template <typename StreamT, typename BaseT>
+using StreamOrBase = std::conditional_t<
+  std::is_base_of<BaseT, StreamT>::value, BaseT, StreamT
+>;
+
+} /* end namespace detail */
+
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
+  using OutT = detail::StreamOrBase<StreamT, std::ostream>;
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, StreamPacker<StreamT>>(
-    target, len, stream
+  dispatch::Standard::pack<T, StreamPacker<OutT>>(
+    target, len, static_cast<OutT&>(stream)
   );
 }
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
   auto mem = dispatch::Standard::allocate<T>();
+  using InT = detail::StreamOrBase<StreamT, std::istream>;
   auto t = std::unique_ptr<T>(dispatch::Standard::construct<T>(mem));
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t.get(), stream
+  dispatch::Standard::unpack<T, StreamUnpacker<InT>>(
+    t.get(), static_cast<InT&>(stream)
   );
   return t;
 }
 
 template <typename T, typename StreamT>
 void deserializeInPlaceFromStream(StreamT& stream, T* t) {
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t, stream
+  using InT = detail::StreamOrBase<StreamT, std::istream>;
+  dispatch::Standard::unpack<T, StreamUnpacker<InT>>(
+    t, static_cast<InT&>(stream)
   );
 }
 
-- 
2.43.0


From d08d94e77eefd90d2c569bdff0833445bdbbcd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:26 +0000
Subject: [PATCH 09/11] fix: link the serializers of a class to its base's only
 once

linkDerivedToBase() ran for every operation on a polymorphic object and stored
into the shared registry entry each time, a data race with operations on other
objects in other threads.
---
 .../dispatch/vrt/link_derived_to_base_idx.h       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h b/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h
index 504edb5..982321a 100644
--- a/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h
+++ b/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h
@@ -51,11 +51,16 @@ namespace checkpoint { namespace dispatch { namespace vrt {
 template <typename SerializerT, typename DerivedT, typename BaseT>
 inline void linkDerivedToBase() {
   using namespace serializer_registry;
-  auto derived_idx = makeObjIdx<DerivedT, SerializerT>();
-  auto base_idx = makeObjIdx<BaseT, SerializerT>();
-  // Link the DerivedT entry to the BaseT entry
-  auto& entry = getObjIdxRef<DerivedT>(derived_idx);
-  entry.base_idx_ = base_idx;
+  // Link the DerivedT entry to the BaseT entry, once: other threads may be using
+  // the entry when this is called again
+  static bool const linked = [] {
+    auto derived_idx = makeObjIdx<DerivedT, SerializerT>();
+    auto base_idx = makeObjIdx<BaseT, SerializerT>();
+    auto& entry = getObjIdxRef<DerivedT>(derived_idx);
+    entry.base_idx_ = base_idx;
+    return true;
+  }();
+  (void)linked;
 }
 
 }}} /* end namespace checkpoint::dispatch::vrt */
-- 
2.43.0


From d82e7035dfb2cd5c4b9683f875d9615d2942b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:26 +0000
Subject: [PATCH 10/11] fix: do not race on the simplified footprinting warning
 flag

Threads footprinting objects that cannot be traversed wrote the same static
flag without synchronisation.
---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index c8ac236..ecc8f07 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -158,15 +158,16 @@ struct SerializerDispatchNonByte {
       static_cast<void*>(&val),
       typeid(val).name()
     );
-    static bool firstCall = true;
-    if (firstCall) {
-      firstCall = false;
+    // Warn once, whichever thread comes first
+    static bool const warned = [] {
       debug_checkpoint(
         "SerializerDispatch: warning: simplified footprinting in use!\n"
         "Objects of type: typeid=%s will not be traversed\n",
-        typeid(val).name()
+        typeid(T*).name()
       );
-    }
+      return true;
+    }();
+    (void)warned;
 
     s.contiguousBytes(val, sizeof(T), num);
   }
-- 
2.43.0


From 6df4ff403562b5d4f7eeea3b033282fc55c0fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:26 +0000
Subject: [PATCH 11/11] fix: look type names up without inserting into the
 registry

Reading data that starts with an unregistered type index inserted an empty
name for it into the shared table of names while composing the error, a data
race with other threads reporting errors and unbounded growth on bad input.
---
 src/checkpoint/dispatch/type_registry.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/type_registry.h b/src/checkpoint/dispatch/type_registry.h
index 69881a9..17c0303 100644
--- a/src/checkpoint/dispatch/type_registry.h
+++ b/src/checkpoint/dispatch/type_registry.h
@@ -124,7 +124,10 @@ inline DecodedIndex getTypeIdx() {
 }
 
 inline std::string const& getTypeNameForIdx(DecodedIndex const typeIdx) {
-  return getRegisteredNames()[typeIdx];
+  static std::string const unregistered;
+  auto const& names = getRegisteredNames();
+  auto const found = names.find(typeIdx);
+  return found != names.end() ? found->second : unregistered;
 }
 
 template <typename ObjT>
-- 
2.43.0

