From 8d1031ef340480087976b86f75170c02bf7a3a4d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 01/48] verif hook: block size of the queues can be set by
 SALTICIDAE_VERIF_MPMCQ_SIZE

---
 include/salticidae/queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 77636e8..7f881c0 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -87,7 +87,11 @@ class FreeList {
     }
 };
 
+#ifdef SALTICIDAE_VERIF_MPMCQ_SIZE
+const size_t MPMCQ_SIZE = SALTICIDAE_VERIF_MPMCQ_SIZE;
+#else
 const size_t MPMCQ_SIZE = 4096;
+#endif
 
 template<typename T>
 class MPMCQueue {
-- 
2.43.0


From da1534f6d0412b56eb58f480b3b3632ba583a701 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:39:50 +0000
Subject: [PATCH 02/48] fix: memory ordering of block hand-over and recycling
 in the queues

The MPSC consumer followed Block::next with a relaxed load, and blocks were
recycled through relaxed reference-count operations, so the accesses to a
block before and after its recycling (or its allocation) were data races.
---
 include/salticidae/queue.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 7f881c0..5bbc311 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -30,7 +30,7 @@ class FreeList {
     FreeList(FreeList &&) = delete;
 
     void release_ref(Node *u) {
-        if (u->refcnt.fetch_sub(1, std::memory_order_relaxed) != 1) return;
+        if (u->refcnt.fetch_sub(1, std::memory_order_acq_rel) != 1) return;
         for (;;)
         {
             auto t = top.load(std::memory_order_relaxed);
@@ -41,7 +41,7 @@ class FreeList {
             if (top.compare_exchange_weak(t, u, std::memory_order_release))
             {
                 // must have seen freed == true
-                u->refcnt.store(1, std::memory_order_relaxed);
+                u->refcnt.store(1, std::memory_order_release);
                 break;
             }
         }
@@ -64,13 +64,13 @@ class FreeList {
             if (!t) continue;
             /* otherwise t > 0, so with CAS, the invariant that zero refcnt can
              * never be increased is guaranteed */
-            if (u->refcnt.compare_exchange_weak(t, t + 1, std::memory_order_relaxed))
+            if (u->refcnt.compare_exchange_weak(t, t + 1, std::memory_order_acquire))
             {
                 /* here, nobody is able to change v->next (because v->next is
                  * only changed when pushed) even when ABA happens */
                 auto v = u;
                 auto nv = u->next.load(std::memory_order_relaxed);
-                if (top.compare_exchange_weak(v, nv, std::memory_order_relaxed))
+                if (top.compare_exchange_weak(v, nv, std::memory_order_acquire))
                 {
                     /* manage to pop the head */
                     r = u;
@@ -118,9 +118,9 @@ class MPMCQueue {
             auto t = tail.load(std::memory_order_acquire);
             auto tcnt = t->refcnt.load(std::memory_order_relaxed);
             if (!tcnt) continue;
-            if (!t->refcnt.compare_exchange_weak(tcnt, tcnt + 1, std::memory_order_relaxed))
+            if (!t->refcnt.compare_exchange_weak(tcnt, tcnt + 1, std::memory_order_acquire))
                 continue;
-            if (t->freed.load(std::memory_order_relaxed))
+            if (t->freed.load(std::memory_order_acquire))
             {
                 blks.release_ref(t);
                 continue;
@@ -208,7 +208,7 @@ class MPMCQueue {
             auto h = this->head.load(std::memory_order_acquire);
             auto hcnt = h->refcnt.load(std::memory_order_relaxed);
             if (!hcnt) continue;
-            if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_relaxed))
+            if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_acquire))
                 continue;
 
             auto hh = h->head.load(std::memory_order_relaxed);
@@ -254,7 +254,7 @@ struct MPSCQueue: public MPMCQueue<T> {
             if (hh >= tt)
             {
                 if (tt < MPMCQ_SIZE) return false;
-                auto hnext = h->next.load(std::memory_order_relaxed);
+                auto hnext = h->next.load(std::memory_order_acquire);
                 if (hnext == nullptr) return false;
                 this->head.store(hnext, std::memory_order_relaxed);
                 this->blks.push(h);
-- 
2.43.0


From 24528d6aef0d5d7fd878760261ad6871246ad23c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:39:50 +0000
Subject: [PATCH 03/48] fix: MPMCQueue consumer could read from a recycled
 block out of order

A consumer that loaded head and was delayed before taking the reference could
end up with a block that was recycled and linked back further down the queue,
dequeuing later elements first (or blocking on a slot nobody will fill).
---
 include/salticidae/queue.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 5bbc311..528b3c8 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -210,6 +210,13 @@ class MPMCQueue {
             if (!hcnt) continue;
             if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_acquire))
                 continue;
+            /* h may have been recycled (and linked back as a later block)
+             * before its refcnt was taken */
+            if (this->head.load(std::memory_order_acquire) != h)
+            {
+                blks.release_ref(h);
+                continue;
+            }
 
             auto hh = h->head.load(std::memory_order_relaxed);
             auto tt = h->tail.load(std::memory_order_relaxed);
-- 
2.43.0


From 66ebb857b709889f7d3e9de3046425bcac3594b7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:50:33 +0000
Subject: [PATCH 04/48] fix: ArcObj control block leak and non-atomic weak
 upgrade

Two threads dropping the last references at the same time could both see the
auxiliary counter non-zero, so that nobody freed the control block; and a weak
handle was upgraded by a separate check and increment, which could revive an
object that was being destroyed.
---
 include/salticidae/ref.h | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index bb5fb3a..de5959a 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -158,6 +158,7 @@ struct _RCCtl {
     size_t ref_cnt;
     size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    bool try_add_ref() { return ref_cnt ? (ref_cnt++, true) : false; }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -177,25 +178,24 @@ struct _RCCtl {
 
 struct _ARCCtl {
     std::atomic_size_t ref_cnt;
+    /* number of weak references, plus one held by all strong references */
     std::atomic_size_t weak_cnt;
-    std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
+    bool try_add_ref() {
+        auto cnt = ref_cnt.load();
+        while (cnt)
+            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;
+        return false;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
-        dcnt++;
-        if (--ref_cnt) { dcnt--; return false; }
-        if (weak_cnt) { dcnt--; return true; }
-        if (!--dcnt) delete this;
+        if (--ref_cnt) return false;
+        release_weak();
         return true;
     }
-    void release_weak() {
-        dcnt++;
-        if (--weak_cnt) { dcnt--; return; }
-        if (ref_cnt) { dcnt--; return; }
-        if (!--dcnt) delete this;
-    }
+    void release_weak() { if (!--weak_cnt) delete this; }
     size_t get_cnt() { return ref_cnt.load(); }
-    _ARCCtl(): ref_cnt(1), weak_cnt(0), dcnt(0) {}
+    _ARCCtl(): ref_cnt(1), weak_cnt(1) {}
     ~_ARCCtl() {}
 };
 
@@ -347,11 +347,10 @@ class _RcObjBase {
     }
 
     _RcObjBase(const _WeakObjBase<T, R> &other) {
-        if (other.ctl && other.ctl->ref_cnt)
+        if (other.ctl && other.ctl->try_add_ref())
         {
             obj = other.obj;
             ctl = other.ctl;
-            ctl->add_ref();
         }
         else
         {
-- 
2.43.0


From 9134eedabd8062ab47c3c4c611613bd14a1588da Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 05/48] fix: DataStream must not move past its end on a failed
 read, nor give back consumed bytes when moved from

---
 include/salticidae/stream.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1ac166a..6ece725 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -114,12 +114,12 @@ class DataStream {
     }
 
     const uint8_t *get_data_inplace(size_t len) {
-        auto res = (uint8_t *)&*(buffer.begin() + offset);
-        offset += len;
 #ifndef SALTICIDAE_NOCHECK
-        if (offset > buffer.size())
+        if (len > buffer.size() - offset)
             throw std::ios_base::failure("insufficient buffer");
 #endif
+        auto res = (uint8_t *)buffer.data() + offset;
+        offset += len;
         return res;
     }
 
@@ -188,7 +188,7 @@ class DataStream {
     }
 
     operator bytearray_t () && {
-        return buffer;
+        return bytearray_t(buffer.begin() + offset, buffer.end());
     }
 
     operator std::string () const & {
-- 
2.43.0


From feb7ee4fcc3132613b9a3c9d9481f5a2033ca2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 06/48] fix: DataStream::load_hex accepted strings that are not
 hexadecimal

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 6ece725..e21e647 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -177,7 +177,9 @@ class DataStream {
         for (p = hex_str.data(), bp = &*buffer.begin();
             p < hex_str.data() + len; p += 2, bp++)
         {
-            if (sscanf(p, "%02x", &tmp) != 1)
+            if (!isxdigit((unsigned char)p[0]) ||
+                !isxdigit((unsigned char)p[1]) ||
+                sscanf(p, "%02x", &tmp) != 1)
                 throw std::invalid_argument("not a valid hex string");
             *bp = tmp;
         }
-- 
2.43.0


From 618638326ed42806b66f79db9453d94c3773503e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 07/48] fix: Bits lost the upper bytes of each word and could
 be left uninitialised or oversized

---
 include/salticidae/stream.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index e21e647..b659c9e 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -328,20 +328,21 @@ class _Bits {
 
     public:
 
-    _Bits(): data(nullptr) {}
+    _Bits(): data(nullptr), nbits(0), ndata(0) {}
     _Bits(const bytearray_t &arr) {
         load(&*arr.begin(), arr.size());
     }
 
     _Bits(const _Bits &other): nbits(other.nbits), ndata(other.ndata) {
+        if (other.is_null()) return;
         data = new _impl_type[ndata];
         memmove(data.get(), other.data.get(), ndata * sizeof(_impl_type));
     }
 
     _Bits(const uint8_t *arr, uint32_t len) { load(arr, len); }
     _Bits(uint32_t nbits): nbits(nbits) {
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
-        data = new _impl_type[ndata];
+        ndata = ((uint64_t)nbits + bit_per_datum - 1) / bit_per_datum;
+        data = new _impl_type[ndata]();
     }
 
     ~_Bits() {}
@@ -356,7 +357,7 @@ class _Bits {
         {
             _impl_type x = 0;
             for (unsigned j = 0, k = 0; j < sizeof(_impl_type); j++, k += 8)
-                if (arr < end) x |= *(arr++) << k;
+                if (arr < end) x |= (_impl_type)*(arr++) << k;
             *(ptr++) = x;
         }
     }
@@ -382,7 +383,9 @@ class _Bits {
     void unserialize(DataStream &s) {
         s >> nbits;
         nbits = letoh(nbits);
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        ndata = ((uint64_t)nbits + bit_per_datum - 1) / bit_per_datum;
+        if (s.size() / sizeof(_impl_type) < ndata)
+            throw std::ios_base::failure("insufficient buffer");
         data = new _impl_type[ndata];
         for (_impl_type *ptr = data.get(); ptr < data.get() + ndata; ptr++)
         {
-- 
2.43.0


From dee4ddaee5cf8941bcb33791df6ff1f431faaf44 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 08/48] fix: datastream_get_* C bindings always reported
 success

---
 src/stream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stream.cpp b/src/stream.cpp
index 6b208aa..92a2d83 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -99,15 +99,15 @@ bool datastream_put_data(datastream_t *self, const uint8_t *base, size_t size) {
     return true;
 }
 
-uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-
-int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
+uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+
+int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
 
 const uint8_t *datastream_get_data_inplace(datastream_t *self, size_t len) {
     try {
-- 
2.43.0


From 4170e9b0e999447fb21b68691d7f9196d5e1dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 09/48] fix: static_pointer_cast of a BoxObj left two owners of
 the object

---
 include/salticidae/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index de5959a..8c5e2a5 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -150,7 +150,7 @@ class BoxObj<T[], D>: public _BoxObj<T, D> {
 template<typename T, typename D = default_delete<T>, typename T_, typename D_>
 BoxObj<T, D> static_pointer_cast(BoxObj<T_, D_> &&other) {
     BoxObj<T, D> box{};
-    box.obj = static_cast<typename BoxObj<T, D>::type *>(other.obj);
+    box.obj = static_cast<typename BoxObj<T, D>::type *>(other.unwrap());
     return box;
 }
 
-- 
2.43.0


From 58a4d51ab355e0747c2a4fcbde659570e5d3070a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 10/48] fix: SegBuffer::move_pop gave back consumed bytes and
 corrupted the size

---
 include/salticidae/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/buffer.h b/include/salticidae/buffer.h
index 6d3f97a..e785f0f 100644
--- a/include/salticidae/buffer.h
+++ b/include/salticidae/buffer.h
@@ -84,7 +84,9 @@ class SegBuffer {
     }
 
     bytearray_t move_pop() {
-        auto res = std::move(buffer.front().data);
+        auto &front = buffer.front();
+        front.data.erase(front.data.begin(), front.offset);
+        auto res = std::move(front.data);
         buffer.pop_front();
         _size -= res.size();
         return res;
-- 
2.43.0


From a550e6fc92ef732045a79b0645b84efbace80a9b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 11/48] fix: MsgBase::parse_hash_list allocated an unchecked
 number of hashes

---
 include/salticidae/msg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/msg.h b/include/salticidae/msg.h
index 11cf309..f15de2a 100644
--- a/include/salticidae/msg.h
+++ b/include/salticidae/msg.h
@@ -252,6 +252,8 @@ class MsgBase {
 
         s >> size;
         size = letoh(size);
+        if (size > s.size() / ENT_HASH_LENGTH)
+            throw std::ios_base::failure("insufficient buffer");
 
         hashes.resize(size);
         for (auto &hash: hashes) s >> hash;
-- 
2.43.0


From 4b6bc1009e106c428169f65b85824da58e2d1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 12/48] fix: stringprintf lost the last character of results of
 1024 bytes or more

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 01f6b06..98bcd7b 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -121,9 +121,9 @@ std::string vstringprintf(const char *fmt, va_list _ap) {
     else
     {
         buff.resize(nwrote);
-        if (nwrote > guessed_size)
+        if (nwrote >= guessed_size)
         {
-            if (vsnprintf(&buff[0], nwrote, fmt, ap) != nwrote)
+            if (vsnprintf(&buff[0], nwrote + 1, fmt, ap) != nwrote)
                 buff = "";
         }
     }
-- 
2.43.0


From 7ea81a606f1c74e6d0092628ea2ddc49b550f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 13/48] fix: SalticidaeError left the OS error code
 uninitialised

---
 include/salticidae/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 1ad81c1..6656067 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -125,10 +125,10 @@ class SalticidaeError: public std::exception {
     int oscode;
 
     public:
-    SalticidaeError() : code(SALTI_NORMAL) {}
+    SalticidaeError() : code(SALTI_NORMAL), oscode(0) {}
 
     template<typename... Args>
-    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC) {
+    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC), oscode(0) {
         msg = stringprintf(fmt.c_str(), args...);
     }
 
-- 
2.43.0


From 780d6478b9e87694779176298ba8a29891e8079a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 14/48] fix: numeric option values accepted trailing garbage
 and let out_of_range escape

---
 include/salticidae/util.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 6656067..1688d24 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -318,9 +318,11 @@ class Config {
             size_t idx;
             try {
                 val = stoi(strval, &idx);
-            } catch (std::invalid_argument &) {
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.size())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
         }
         int &get() { return val; }
     };
@@ -338,9 +340,11 @@ class Config {
             size_t idx;
             try {
                 val = stod(strval, &idx);
-            } catch (std::invalid_argument &) {
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.size())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
         }
         double &get() { return val; }
     };
-- 
2.43.0


From 24cf4f6a5e76a92723948429824d82bb7c2ba690 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 15/48] fix: NetAddr accepted trailing garbage after the port
 number

---
 include/salticidae/netaddr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index 669ff27..2ce1d65 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -65,12 +65,13 @@ struct NetAddr {
         std::string ip_str = ip_port_addr.substr(0, pos);
         std::string port_str = ip_port_addr.substr(pos + 1);
         long port;
+        size_t idx;
         try {
-            port = std::stol(port_str.c_str());
+            port = std::stol(port_str, &idx);
         } catch (std::logic_error &) {
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         }
-        if (port < 0)
+        if (port < 0 || idx != port_str.size())
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         if (port > 0xffff)
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
-- 
2.43.0


From f3cc4b27d2b9acb110e17e3096f6ac10bd6bb57e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 16/48] fix: keep parsing buffered messages after one with a
 bad checksum

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5aaa3bf..8056794 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -680,7 +680,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             if (!msg.verify_checksum())
             {
                 SALTICIDAE_LOG_WARN("checksums do not match, dropping the message");
-                break;
+                continue;
             }
 #endif
             if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))
-- 
2.43.0


From c0e648150f15110c953f3536c37f36be2de01efb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:49:13 +0000
Subject: [PATCH 17/48] fix: deliver the data received before the remote closes
 the connection

---
 src/conn.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index 41704ca..fd798d0 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -136,7 +136,10 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
         }
         if (ret == 0)
         {
-            /* the remote closes the connection */
+            /* the remote closes the connection, hand over the data received
+             * before that */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
             conn->cpool->worker_terminate(conn);
             return;
         }
@@ -223,6 +226,8 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
         }
         if (ret == 0)
         {
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
             conn->cpool->worker_terminate(conn);
             return;
         }
-- 
2.43.0


From 36658a735147bf520c42f4508c15f3da83f72815 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:49:50 +0000
Subject: [PATCH 18/48] fix: parse the received data when the receive buffer
 fills up instead of stalling

---
 src/conn.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index fd798d0..e8be8fe 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -116,7 +116,13 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     {
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
-            /* recv_buffer is full, temporarily mask the READ event */
+            /* recv_buffer is full, let the upper layer make room first */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+        }
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        {
+            /* recv_buffer is still full, temporarily mask the READ event */
             conn->ev_socket.del();
             conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
             conn->ready_recv = true;
@@ -206,6 +212,11 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     auto &tls = conn->tls;
     while (ret == (ssize_t)recv_chunk_size)
     {
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        {
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+        }
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
             conn->ev_socket.del();
-- 
2.43.0


From 84119923ca3909ef34e3e910cb82d5fe823fbd0f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:50:39 +0000
Subject: [PATCH 19/48] fix: handle a malformed message found while resuming
 from a full message queue

---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8056794..036ccb5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -145,7 +145,12 @@ class MsgNetwork: public ConnPool {
                     return;
                 }
                 conn->msg_sleep = false;
-                on_read(conn);
+                try {
+                    on_read(conn);
+                } catch (...) {
+                    this->recoverable_error(std::current_exception(), -1);
+                    this->worker_terminate(conn);
+                }
             });
     }
 
-- 
2.43.0


From 4ef7b4d4e2b954363ab3fb4077d0065ae6adb818 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:51:37 +0000
Subject: [PATCH 20/48] fix: do not parse the rest of the stream after an
 oversized message

---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 036ccb5..765992c 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -670,6 +670,8 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
                 SALTICIDAE_LOG_WARN(
                         "oversized message from %s, terminating the connection",
                         std::string(*conn).c_str());
+                /* the rest of the stream must not be parsed */
+                conn->msg_sleep = true;
                 throw MsgNetworkError(SALTI_ERROR_CONN_OVERSIZED_MSG);
             }
             msg_state = Conn::PAYLOAD;
-- 
2.43.0


From dec9dbdc47d8d746d33bcc597c896a5d60dba32b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:52:37 +0000
Subject: [PATCH 21/48] fix: return the configuration from
 MsgNetwork::Config::msg_magic()

---
 include/salticidae/network.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 765992c..7653360 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -195,6 +195,7 @@ class MsgNetwork: public ConnPool {
 
         Config &msg_magic(uint32_t x) {
             _msg_magic = x;
+            return *this;
         }
     };
 
-- 
2.43.0


From 781d1a909b44cbcb9329efbaa01b7b620eba5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:55:07 +0000
Subject: [PATCH 22/48] fix: do not stall the data following an empty write

---
 include/salticidae/conn.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index f08ba66..9a50ad4 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -143,6 +143,8 @@ class ConnPool {
         /** Write data to the connection (non-blocking). The data will be sent
          * whenever I/O is available. */
         bool write(bytearray_t &&data) {
+            /* an empty segment stands for the end of the buffer */
+            if (data.empty()) return true;
             return send_buffer.push(std::move(data), !cpool->max_send_buff_size);
         }
     };
-- 
2.43.0


From c1127f637ded146a6632f2a164ea656e33728139 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:01:45 +0000
Subject: [PATCH 23/48] fix: terminate a connection through its worker when it
 gets one in the meantime

---
 src/conn.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index e8be8fe..52fbdcd 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -307,6 +307,12 @@ void ConnPool::disp_terminate(const conn_t &conn) {
         worker_terminate(conn);
     else
         disp_tcall->async_call([this, conn](ThreadCall::Handle &) {
+            if (conn->worker)
+            {
+                /* handed over to a worker in the meantime */
+                worker_terminate(conn);
+                return;
+            }
             if (!conn->set_terminated()) return;
             on_worker_teardown(conn);
             //conn->stop();
-- 
2.43.0


From 5afa5851299f952e279f11dbfbb8a2dc3519357c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:15 +0000
Subject: [PATCH 24/48] fix: close the socket when setting it up fails in
 connect and accept

---
 src/conn.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index 52fbdcd..467b813 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -335,10 +335,13 @@ void ConnPool::accept_client(int fd, int) {
             int one = 1;
             if (setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
                 //setsockopt(client_fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
-            if (fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+                fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
+            {
+                int err = errno;
+                close(client_fd);
+                throw ConnPoolError(SALTI_ERROR_ACCEPT, err);
+            }
 
             NetAddr addr((struct sockaddr_in *)&client_addr);
             conn_t conn = create_conn();
@@ -419,10 +422,13 @@ ConnPool::conn_t ConnPool::_connect(const NetAddr &addr) {
         throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
     if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
         //setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
-    if (fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
+        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+        fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
+    {
+        int err = errno;
+        close(fd);
+        throw ConnPoolError(SALTI_ERROR_CONNECT, err);
+    }
     conn_t conn = create_conn();
     conn->send_buffer.set_capacity(max_send_buff_size);
     conn->recv_chunk_size = recv_chunk_size;
-- 
2.43.0


From 9e1b0e5d23a3d88f28bbe79d876e6c878c9e1d82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:13:48 +0000
Subject: [PATCH 25/48] fix: honour the number of tries of conn_peer

---
 include/salticidae/network.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 7653360..9968d68 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -839,6 +839,7 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
      * 1. p2p is connected
      * 2. p2p is disconnected, but it is trying to do an active connection by
      * start_active_conn() */
+    auto last_state = p->state;
     if (p->state != Peer::State::DISCONNECTED)
     {
         assert(p->conn == conn);
@@ -873,13 +874,13 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
         if (peer_cb) peer_cb(conn, false);
     });
     p->inbound_conn = nullptr;
-    /* auto retry the connection */
-    if (p->cur_ntry > 0) p->cur_ntry--;
+    /* auto retry the connection, attempts are counted when they start */
+    if (last_state == Peer::State::CONNECTED && p->cur_ntry > 0) p->cur_ntry--;
     if (p->cur_ntry)
     {
         p->nonce = 0;
         p->ev_retry_timer.add(
-            p->state == Peer::State::RESET ?
+            last_state == Peer::State::RESET ?
             0 : gen_rand_timeout(p->retry_delay));
     }
     else
@@ -983,7 +984,11 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     conn->peer = p;
     conn->manual = false;
     if (p->outbound_conn)
+    {
+        /* superseded by the new attempt */
+        p->outbound_conn->peer = nullptr;
         this->disp_terminate(p->outbound_conn);
+    }
     p->outbound_conn = conn;
     assert(pending_peers.count(conn->get_addr()) == 0);
 }
@@ -1217,7 +1222,9 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
                     start_active_conn(p);
-                    p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
+                    if (p->cur_ntry > 0) p->cur_ntry--;
+                    if (p->cur_ntry)
+                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
             });
 
-- 
2.43.0


From a0fadcf3f38b57d4797e5c42f80936012c5281ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:16:53 +0000
Subject: [PATCH 26/48] fix: abandon the handshakes in progress when conn_peer
 starts over

---
 include/salticidae/network.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 9968d68..60a86bc 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1214,8 +1214,19 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ntry = ntry;
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
-            p->inbound_conn = nullptr;
-            p->outbound_conn = nullptr;
+            /* abandon the handshakes in progress */
+            if (p->inbound_conn)
+            {
+                p->inbound_preempt_ping = nullptr;
+                this->disp_terminate(p->inbound_conn);
+                p->inbound_conn = nullptr;
+            }
+            if (p->outbound_conn)
+            {
+                p->outbound_conn->peer = nullptr;
+                this->disp_terminate(p->outbound_conn);
+                p->outbound_conn = nullptr;
+            }
             p->ev_ping_timer.del();
             p->nonce = 0;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
-- 
2.43.0


From 646a996ed6667098af0a56cd4684bbdf8a00149e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:33:06 +0000
Subject: [PATCH 27/48] fix: ignore the handshake reply of a superseded
 connection attempt

---
 include/salticidae/network.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 60a86bc..0702334 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1114,12 +1114,18 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         tty_secondary_color, id_hex.c_str(), tty_reset_color,
                         tty_secondary_color, p->id_hex.c_str(), tty_reset_color);
                     auto &old_conn = p->outbound_conn;
+                    if (!conn->manual && old_conn != conn)
+                    {
+                        /* superseded by another attempt */
+                        this->disp_terminate(conn);
+                        return;
+                    }
                     if (old_conn && old_conn != conn)
                     {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*old_conn).c_str());
-                        assert(old_conn->peer == nullptr);
+                        old_conn->peer = nullptr;
                         this->disp_terminate(old_conn);
                     }
                     old_conn = conn;
-- 
2.43.0


From cda3dcba2f044e0a0881b517e89aa323777ef522 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:41:24 +0000
Subject: [PATCH 28/48] fix: read and write ConnPool::system_state atomically

---
 include/salticidae/conn.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 9a50ad4..9757a7a 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -38,6 +38,7 @@
 #include <exception>
 #include <mutex>
 #include <thread>
+#include <atomic>
 #include <fcntl.h>
 
 #include "salticidae/type.h"
@@ -150,7 +151,7 @@ class ConnPool {
     };
 
     protected:
-    int system_state;
+    std::atomic<int> system_state;
     EventContext ec;
     EventContext disp_ec;
     ThreadCall* disp_tcall;
-- 
2.43.0


From db92df246d2c134c5435944fd4f59e1e2558778c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:01:12 +0000
Subject: [PATCH 29/48] fix: end the other outbound handshake when one
 connection is chosen

---
 include/salticidae/network.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 0702334..86181bf 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -922,6 +922,9 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     if (p->outbound_conn)
     {
         p->outbound_conn->peer = nullptr;
+        /* the other side may have chosen it with a stale nonce */
+        if (p->outbound_conn != p->chosen_conn)
+            this->disp_terminate(p->outbound_conn);
         p->outbound_conn = nullptr;
     }
     p->state = Peer::State::CONNECTED;
-- 
2.43.0


From 5c169341bf21b274eccaea8a1306a6f2fb120aa1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:06:41 +0000
Subject: [PATCH 30/48] fix: replace the connection of a peer under the
 exclusive lock

---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 86181bf..9036f62 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1016,7 +1016,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::PASSIVE)
                 {
                     auto pid = get_peer_id(conn, msg.claimed_addr);
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
@@ -1098,7 +1098,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::ACTIVE)
                 {
                     auto pid = get_peer_id(conn, conn->get_addr());
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
-- 
2.43.0


From 436231e0093d9713a25f891ffa0fd535a770a43d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:07:42 +0000
Subject: [PATCH 31/48] fix: send a partially sent message again in one piece
 on the next connection to the peer

---
 include/salticidae/conn.h |  3 +++
 src/conn.cpp              | 28 ++++++++++++++++++----------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 9757a7a..c6fb725 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -84,6 +84,8 @@ class ConnPool {
         NetAddr addr;
 
         MPSCWriteBuffer send_buffer;
+        /* bytes of the first segment in send_buffer that are already sent */
+        size_t send_offset;
         SegBuffer recv_buffer;
 
         /* initialized and destroyed by the dispatcher */
@@ -117,6 +119,7 @@ class ConnPool {
             worker(nullptr),
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
+            send_offset(0),
             ready_send(false), ready_recv(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
diff --git a/src/conn.cpp b/src/conn.cpp
index 467b813..f011f7f 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -70,9 +70,9 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
     for (;;)
     {
         bytearray_t buff_seg = conn->send_buffer.move_pop();
-        ssize_t size = buff_seg.size();
+        ssize_t size = buff_seg.size() - conn->send_offset;
         if (!size) break;
-        ret = send(fd, buff_seg.data(), size, 0);
+        ret = send(fd, buff_seg.data() + conn->send_offset, size, 0);
         SALTICIDAE_LOG_DEBUG("socket(%d) sent %zd bytes", fd, ret);
         size -= ret;
         if (size > 0)
@@ -89,13 +89,17 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
                 }
             }
             else
-                /* rewind the leftover */
-                conn->send_buffer.rewind(
-                    bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+            {
+                /* keep the segment in one piece, as it is sent again entirely
+                 * if it has to be moved to another connection */
+                conn->send_offset += ret;
+                conn->send_buffer.rewind(std::move(buff_seg));
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->send_offset = 0;
     }
     /* the send_buffer is empty though the kernel buffer is still available, so
      * temporarily mask the WRITE event and mark the `ready_send` flag */
@@ -169,9 +173,9 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
     for (;;)
     {
         bytearray_t buff_seg = conn->send_buffer.move_pop();
-        ssize_t size = buff_seg.size();
+        ssize_t size = buff_seg.size() - conn->send_offset;
         if (!size) break;
-        ret = tls->send(buff_seg.data(), size);
+        ret = tls->send(buff_seg.data() + conn->send_offset, size);
         SALTICIDAE_LOG_DEBUG("ssl(%d) sent %zd bytes", fd, ret);
         size -= ret;
         if (size > 0)
@@ -188,13 +192,17 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
                 }
             }
             else
-                /* rewind the leftover */
-                conn->send_buffer.rewind(
-                    bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+            {
+                /* keep the segment in one piece, as it is sent again entirely
+                 * if it has to be moved to another connection */
+                conn->send_offset += ret;
+                conn->send_buffer.rewind(std::move(buff_seg));
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->send_offset = 0;
     }
     conn->ev_socket.del();
     conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
-- 
2.43.0


From b6b8e81118f5d21e7b7ee81c3ed8184087955932 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:11:10 +0000
Subject: [PATCH 32/48] fix: keep all accepted messages when a peer reconnects

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 9036f62..e43cd86 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -942,7 +942,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
             if (!buff_seg.size()) break;
-            new_conn->write(std::move(buff_seg));
+            /* these messages are accepted, do not drop them */
+            new_conn->send_buffer.push(std::move(buff_seg), true);
         }
         old_conn->peer = nullptr;
     }
-- 
2.43.0


From 2fa0e2f8cbde81812b06a49a584e4575e66e7901 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:25:51 +0000
Subject: [PATCH 33/48] fix: retry when the inbound connection replacing an
 established one is lost

---
 include/salticidae/network.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index e43cd86..4beae8f 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -868,6 +868,9 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
             delete iping;
         });
         p->inbound_conn = nullptr;
+        /* the inbound connection may be lost before its handshake is done */
+        if (p->cur_ntry)
+            p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
         return;
     }
     this->user_tcall->async_call([this, conn](ThreadCall::Handle &) {
@@ -1242,6 +1245,7 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
+                    if (p->nonce == passive_nonce) p->nonce = 0;
                     start_active_conn(p);
                     if (p->cur_ntry > 0) p->cur_ntry--;
                     if (p->cur_ntry)
-- 
2.43.0


From 9ce272f15962c7e4937fdb8d43b6f1d4e5668e53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:50:35 +0000
Subject: [PATCH 34/48] fix: protect the client table of ClientNetwork, which
 send_msg uses from any thread

---
 include/salticidae/network.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 4beae8f..58253fc 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -284,6 +284,7 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
 
     private:
     std::unordered_map<NetAddr, typename MsgNet::conn_t> addr2conn;
+    std::mutex addr2conn_lock;
 
     public:
     class Conn: public MsgNet::Conn {
@@ -1410,6 +1411,7 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
     cn->addr2conn.erase(addr);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
@@ -1418,7 +1420,9 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    conn->get_net()->addr2conn.erase(conn->get_addr());
+    auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
+    cn->addr2conn.erase(conn->get_addr());
 }
 
 template<typename OpcodeType>
@@ -1447,10 +1451,15 @@ inline bool ClientNetwork<OpcodeType>::send_msg(const MsgType &msg, const NetAdd
 
 template<typename OpcodeType>
 inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &addr) {
-    auto it = addr2conn.find(addr);
-    if (it == addr2conn.end())
-        throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
-    return MsgNet::_send_msg(msg, it->second);
+    typename MsgNet::conn_t conn;
+    {
+        std::lock_guard<std::mutex> _g(addr2conn_lock);
+        auto it = addr2conn.find(addr);
+        if (it == addr2conn.end())
+            throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
+        conn = it->second;
+    }
+    return MsgNet::_send_msg(msg, conn);
 }
 
 template<typename O, O OPCODE_PING, O _>
-- 
2.43.0


From 6f33d51119a323bb979341cf55b7d8ea6aecda51 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:50:54 +0000
Subject: [PATCH 35/48] fix: keep the entry of a client that reconnected from
 the same address

---
 include/salticidae/network.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 58253fc..5ad0dd5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1422,7 +1422,10 @@ void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_
     auto conn = static_pointer_cast<Conn>(_conn);
     auto cn = conn->get_net();
     std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
-    cn->addr2conn.erase(conn->get_addr());
+    /* the address may be in use by a newer connection */
+    auto it = cn->addr2conn.find(conn->get_addr());
+    if (it != cn->addr2conn.end() && it->second == conn)
+        cn->addr2conn.erase(it);
 }
 
 template<typename OpcodeType>
-- 
2.43.0


From d646e014e375eaa09e233ad5577a6fad82ddc177 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:51:10 +0000
Subject: [PATCH 36/48] fix: report a deferred message to a client that is not
 accepted

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5ad0dd5..a8e3c5c 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1440,7 +1440,8 @@ inline int32_t ClientNetwork<OpcodeType>::_send_msg_deferred(Msg &&msg, const Ne
     this->disp_tcall->async_call(
             [this, msg=std::move(msg), addr, id](ThreadCall::Handle &) {
         try {
-            _send_msg(msg, addr);
+            if (!_send_msg(msg, addr))
+                throw ClientNetworkError(SALTI_ERROR_CONN_NOT_READY);
         } catch (...) { this->recoverable_error(std::current_exception(), id); }
     });
     return id;
-- 
2.43.0


From 41c568cc2cd7dd1182139a28fac4fa68475540cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 37/48] fix: peernetwork_send_msg and clientnetwork_send_msg
 reported refused messages as sent

---
 src/network.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/network.cpp b/src/network.cpp
index d81b569..f888ff9 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -295,8 +295,7 @@ void peernetwork_conn_free(const peernetwork_conn_t *self) { delete self; }
 
 bool peernetwork_send_msg(peernetwork_t *self, const msg_t * msg, const peerid_t *peer) {
     try {
-        self->_send_msg(*msg, *peer);
-        return true;
+        return self->_send_msg(*msg, *peer);
     } catch (...) {
         return false;
     }
@@ -365,8 +364,7 @@ void clientnetwork_conn_free(const clientnetwork_conn_t *self) { delete self; }
 
 bool clientnetwork_send_msg(clientnetwork_t *self, const msg_t * msg, const netaddr_t *addr) {
     try {
-        self->_send_msg(*msg, *addr);
-        return true;
+        return self->_send_msg(*msg, *addr);
     } catch (...) {
         return false;
     }
-- 
2.43.0


From d88b4e851b47d8061fcec6b30b262431fb9474a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 38/48] fix: set_peer_addr during a connection attempt must not
 abort the process

---
 include/salticidae/network.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index a8e3c5c..574dbb5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1115,7 +1115,12 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         return;
                     }
                     auto &p = pit->second;
-                    assert(!p->addr.is_null() && p->addr == conn->get_addr());
+                    if (p->addr != conn->get_addr())
+                    {
+                        /* the address is changed since the attempt started */
+                        this->disp_terminate(conn);
+                        return;
+                    }
                     if (p->state != Peer::State::DISCONNECTED ||
                         p->addr != msg.claimed_addr) return;
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
@@ -1246,6 +1251,8 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
+                    /* the address may be removed in the meantime */
+                    if (p->addr.is_null()) return;
                     if (p->nonce == passive_nonce) p->nonce = 0;
                     start_active_conn(p);
                     if (p->cur_ntry > 0) p->cur_ntry--;
-- 
2.43.0


From 5a23e9b9357a90f2b12f4528bee487e14dafc0b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 39/48] fix: ignore a heartbeat reply received during the
 handshake

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 574dbb5..415ad1f 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1167,7 +1167,8 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
             else /* heartbeat pong */
             {
                 auto p = conn->peer;
-                if (!p)
+                /* a pong is only expected after the handshake */
+                if (!p || p->state != Peer::State::CONNECTED || p->conn != conn)
                 {
                     SALTICIDAE_LOG_WARN("%s%s%s: unexpected pong mesage",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color);
-- 
2.43.0


From f7bfb20423f7786b10f5f04145ce25a43a73f00e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 40/48] fix: get_npending() returned only the lowest byte of
 the number of pending connections

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 415ad1f..9cc62e5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1351,7 +1351,7 @@ bool PeerNetwork<O, _, __>::has_peer(const PeerId &pid) const {
 
 template<typename O, O _, O __>
 size_t PeerNetwork<O, _, __>::get_npending() const {
-    return *(static_cast<bool *>(this->disp_tcall->call(
+    return *(static_cast<size_t *>(this->disp_tcall->call(
                 [this](ThreadCall::Handle &h) {
         h.set_result(pending_peers.size());
     }).get()));
-- 
2.43.0


From aa6cc19834f4cc3f92f1502ca693632b585faf79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:03:11 +0000
Subject: [PATCH 41/48] fix: an inbound connection from the listening port of a
 peer must not abort the process

---
 include/salticidae/network.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 9cc62e5..48c45f9 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -532,6 +532,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
     void _pong_msg_cb(const conn_t &conn, uint16_t port);
     void finish_handshake(Peer *peer);
     void replace_pending_conn(const conn_t &conn);
+    void remove_pending_conn(const conn_t &conn);
     void start_active_conn(Peer *peer);
     static void tcall_reset_timeout(ConnPool::Worker *worker,
                                     const conn_t &conn, double timeout);
@@ -826,8 +827,7 @@ template<typename O, O _, O __>
 void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    auto addr = conn->get_addr();
-    pending_peers.erase(addr);
+    remove_pending_conn(conn);
     SALTICIDAE_LOG_INFO("%s%s%s: lost connection %s",
             tty_secondary_color,
             id_hex.c_str(),
@@ -956,7 +956,7 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     this->user_tcall->async_call([this, conn=p->conn](ThreadCall::Handle &) {
         if (peer_cb) peer_cb(conn, true);
     });
-    pending_peers.erase(p->conn->get_addr());
+    remove_pending_conn(p->conn);
     SALTICIDAE_LOG_INFO("%sestablished %s%s%s <---> %s%s%s (via %s)%s",
         tty_primary_color,
         tty_secondary_color,
@@ -985,6 +985,14 @@ void PeerNetwork<O, _, __>::replace_pending_conn(const conn_t &conn) {
     pending_peers.insert(std::make_pair(addr, conn));
 }
 
+template<typename O, O _, O __>
+void PeerNetwork<O, _, __>::remove_pending_conn(const conn_t &conn) {
+    auto it = pending_peers.find(conn->get_addr());
+    /* the entry may belong to another connection from the same address */
+    if (it != pending_peers.end() && it->second == conn)
+        pending_peers.erase(it);
+}
+
 template<typename O, O _, O __>
 void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     assert(!p->addr.is_null());
@@ -998,7 +1006,6 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
         this->disp_terminate(p->outbound_conn);
     }
     p->outbound_conn = conn;
-    assert(pending_peers.count(conn->get_addr()) == 0);
 }
 
 template<typename O, O _, O __>
-- 
2.43.0


From 112840874296f3dd9588872d01180e82cd4ae231 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:54:51 +0000
Subject: [PATCH 42/48] fix: a TLS connection must survive a full socket buffer

The segment is copied between two SSL_write calls (MPSCWriteBuffer::move_pop),
which OpenSSL refuses with 'bad write retry' unless told to accept it.
---
 include/salticidae/crypto.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index d17a919..3675fb7 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -372,7 +372,8 @@ class TLS {
         else
             SSL_set_connect_state(ssl);
 
-        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
+        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE |
+                            SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     }
 
     TLS(const TLS &) = delete;
-- 
2.43.0


From 6fe22917c6eee6520511e180dee8c9fc77020a68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:58:07 +0000
Subject: [PATCH 43/48] fix: tls_skip_ca_check took a pointer, so that the
 check could not be enabled with false

---
 include/salticidae/conn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index c6fb725..e38e6d3 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -478,7 +478,7 @@ class ConnPool {
             return *this;
         }
 
-        Config &tls_skip_ca_check(bool *x) {
+        Config &tls_skip_ca_check(bool x) {
             _tls_skip_ca_check = x;
             return *this;
         }
-- 
2.43.0


From 0d07e89f1eb9b3005ec5232c76a228a583178695 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:02:06 +0000
Subject: [PATCH 44/48] fix: a failed TLS connection must not end the others of
 the same worker

SSL_get_error() looks at the error queue of the thread, in which failed
handshakes and SSL_shutdown() leave their errors: clear it before each call.
---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 3675fb7..6b00bfb 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -32,6 +32,7 @@
 #include <openssl/sha.h>
 #include <openssl/ssl.h>
 #include <openssl/bn.h>
+#include <openssl/err.h>
 
 namespace salticidae {
 
@@ -382,6 +383,7 @@ class TLS {
     bool do_handshake(int &want_io_type) {
         /* want_io_type: 0 for read, 1 for write */
         /* return true if handshake is completed */
+        ERR_clear_error();
         auto ret = SSL_do_handshake(ssl);
         if (ret == 1) return true;
         auto err = SSL_get_error(ssl, ret);
@@ -402,10 +404,12 @@ class TLS {
     }
 
     inline int send(const void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_write(ssl, buff, size);
     }
 
     inline int recv(void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_read(ssl, buff, size);
     }
 
-- 
2.43.0


From 76781521d2d6b04fb2efae99fd530a9d70cff4fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 45/48] fix: a connection attempt answered by another known
 peer does not belong to that peer

With certificate-based identities the retries to the outdated address of one
peer kept replacing the established connection of the peer that is there now.
---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 48c45f9..1fd8172 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -814,6 +814,8 @@ void PeerNetwork<O, _, __>::on_dispatcher_setup(const ConnPool::conn_t &_conn) {
         else
         {
             pinfo_slock_t _g(known_peers_lock);
+            if (conn->peer && conn->peer != it->second.get())
+                throw PeerNetworkError(SALTI_ERROR_PEER_NOT_MATCH);
             send_msg(MsgPing(
                 listen_addr,
                 it->second->get_nonce()), conn);
-- 
2.43.0


From 9d04411a266690a8d87161ce96600c4408ae9707 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:25:44 +0000
Subject: [PATCH 46/48] fix: close the PEM file when it cannot be parsed

---
 include/salticidae/crypto.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 6b00bfb..6c20f4d 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -178,9 +178,9 @@ class PKey {
         {
             key = PEM_read_PrivateKey(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (key == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_KEY);
-        fclose(fp);
         return PKey(key);
     }
 
@@ -266,9 +266,9 @@ class X509 {
         {
             x509 = PEM_read_X509(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (x509 == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_X509);
-        fclose(fp);
         return X509(x509);
     }
 
-- 
2.43.0


From a15d512615931fe49254ac41bf350f38d55cecee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:34:30 +0000
Subject: [PATCH 47/48] fix: do not throw through OpenSSL for a password that
 is too long

The file stayed open and OpenSSL's state was leaked.
---
 include/salticidae/crypto.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 6c20f4d..388d511 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -127,7 +127,7 @@ static inline int _tls_pem_no_passswd(char *, int, int, void *) {
 static inline int _tls_pem_with_passwd(char *buf, int size, int, void *) {
     size_t _size = strlen(_passwd) + 1;
     if (_size > (size_t)size)
-        throw SalticidaeError(SALTI_ERROR_TLS_X509);
+        return -1; /* called from C, reported by the reader */
     memmove(buf, _passwd, _size);
     return _size - 1;
 }
-- 
2.43.0


From b5c873dc839c74f38239738e3b5369409640fce5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:42:00 +0000
Subject: [PATCH 48/48] fix: report a key or certificate file that cannot be
 created instead of crashing

---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 388d511..9a06a92 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -217,6 +217,8 @@ class PKey {
 
     void save_privkey_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_KEY);
         auto ret = PEM_write_PrivateKey(fp, key, nullptr, nullptr, 0, nullptr, nullptr);
         fclose(fp);
         if (!ret)
@@ -301,6 +303,8 @@ class X509 {
 
     void save_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_X509);
         auto ret = PEM_write_X509(fp, x509);
         fclose(fp);
         if (!ret)
-- 
2.43.0

