From fb19f47ab03615ba3278f78b4457c542f6e5b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:36 +0000
Subject: [PATCH 01/72] fix: sign extend 64-bit integers correctly when loading
 from an archive

The sign extension used a 32-bit shift, so negative long and long long
values that need five or more bytes were read back as other values.
---
 include/Pothos/Archive/Numbers.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..45b4ccc 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -126,19 +126,22 @@ typename std::enable_if<
     std::is_same<T, signed long long>::value
 >::type load(Archive &ar, T &t, const unsigned int)
 {
-    t = T(0);
+    //shift in an unsigned type of the same width: shifts into the sign bit are well defined
+    typedef typename std::make_unsigned<T>::type UnsignedT;
+    UnsignedT value(0);
     unsigned shift(0);
     unsigned char byte;
     do
     {
         ar >> byte;
-        t |= T(byte & 0x7f) << shift;
+        value |= UnsignedT(byte & 0x7f) << shift;
         shift += 7;
     } while ((byte & 0x80) != 0);
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) value |= ~UnsignedT(0) << shift;
+    t = static_cast<T>(value);
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From 92f5ab33db072e1f83f1a20d44142e6664cc05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:36 +0000
Subject: [PATCH 02/72] fix: serialize every byte of strings with wide
 characters

basic_string wrote and read size() bytes instead of size()*sizeof(T),
so most of a std::wstring was lost in an archive.
---
 include/Pothos/Archive/String.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/String.hpp b/include/Pothos/Archive/String.hpp
index c7a09d7..2e396ef 100644
--- a/include/Pothos/Archive/String.hpp
+++ b/include/Pothos/Archive/String.hpp
@@ -22,7 +22,7 @@ template<typename Archive, typename T, typename Traits, typename Allocator>
 void save(Archive &ar, const std::basic_string<T, Traits, Allocator> &t, const unsigned int)
 {
     ar << unsigned(t.size());
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar << bo;
 }
 
@@ -32,7 +32,7 @@ void load(Archive &ar, std::basic_string<T, Traits, Allocator> &t, const unsigne
     unsigned size(0);
     ar >> size;
     t.resize(size);
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar >> bo;
 }
 
-- 
2.43.0


From 5b65a679ff4e119b3d84d42e2c734d3d5e4302fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:23 +0000
Subject: [PATCH 03/72] fix: only fold a pool buffer back into the buffer it
 was copied from

---
 include/Pothos/Framework/BufferAccumulator.hpp |  2 +-
 lib/Framework/BufferAccumulator.cpp            | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..595b086 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -86,7 +86,7 @@ public:
 private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
-    bool _inPoolBuffer;
+    size_t _poolOverlap; //trailing bytes of a front pool buffer that also precede front+1
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..30adc66 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,7 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _poolOverlap(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -26,7 +26,7 @@ void Pothos::BufferAccumulator::clear(void)
 {
     _queue.clear();
     _bytesAvailable = 0;
-    _inPoolBuffer = false;
+    _poolOverlap = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -128,11 +128,11 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     const size_t queueSize = queue.size();
 
     //If the front buffer is from the pool,
-    //and the remainder bytes are in front+1,
+    //and the remainder bytes were copied from front+1,
     //then pop the front and move into front+1.
     if (
-        _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        _poolOverlap != 0 and queue.size() > 1 and //pool in front
+        queue.front().length <= _poolOverlap)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -161,7 +161,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     }
 
     //clear the pool buffer state when the queue size shrinks
-    if (_inPoolBuffer and queueSize != queue.size()) _inPoolBuffer = false;
+    if (queueSize != queue.size()) _poolOverlap = 0;
 
     //pop all of the front-most consumed buffers
     while (not queue.empty() and queue.front().length == 0) queue.pop_front();
@@ -187,7 +187,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     if (_bytesAvailable < numBytes and queue.size() == 1 and
         numBytes <= queue.front().getBuffer().getLength()) return;
 
-    //Actually this is ok: assert(not _inPoolBuffer);
+    //Actually its ok when a pool buffer is already in front:
     //The smaller pool buffer in front will be absorbed and popped.
 
     //get a buffer that can hold the required bytes
@@ -197,6 +197,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.length = 0;
 
     //copy from the queue into the new buffer
+    _poolOverlap = 0;
     while (not queue.empty())
     {
         //copy the front buffer into the new buffer
@@ -220,12 +221,12 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
             assert(newBuffBytes == 0);
             f.length -= copyBytes;
             f.address += copyBytes;
+            _poolOverlap = copyBytes;
             break;
         }
     }
 
     //finally store the new buffer to the front
-    _inPoolBuffer = true;
     queue.push_front(std::move(newBuffer));
 }
 
-- 
2.43.0


From 8db3c5efad45eeb85ab8b7647eb11bce3c06e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:27 +0000
Subject: [PATCH 04/72] fix: keep RingDeque contents on self assignment

---
 include/Pothos/Util/RingDeque.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Pothos/Util/RingDeque.hpp b/include/Pothos/Util/RingDeque.hpp
index d0cf340..2737ea3 100644
--- a/include/Pothos/Util/RingDeque.hpp
+++ b/include/Pothos/Util/RingDeque.hpp
@@ -177,6 +177,7 @@ RingDeque<T, A>::RingDeque(RingDeque<T, A> &&other):
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 {
+    if (this == &other) return *this;
     this->clear();
     this->set_capacity(other.capacity());
     for (size_t i = 0; i < other.size(); i++)
@@ -189,6 +190,7 @@ RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(RingDeque<T, A> &&other)
 {
+    if (this == &other) return *this;
     this->clear();
     _allocator.deallocate(_container, _mask+1);
     _allocator = std::move(other._allocator);
-- 
2.43.0


From cfd663f9e2021c664a057b1635c2b9bc898d5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:56 +0000
Subject: [PATCH 05/72] fix: keep the assigned value alive during Object
 assignment, and allow unique() on null

---
 lib/Object/Object.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..b6f6745 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,23 +87,26 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
+    auto impl = rhs._impl; //rhs may be this object or be held by this object
+    incr(impl);
     decr(_impl);
-    _impl = rhs._impl;
-    incr(_impl);
+    _impl = impl;
     return *this;
 }
 
 Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 {
-    decr(_impl);
-    _impl = rhs._impl;
+    auto impl = rhs._impl; //rhs may be this object or be held by this object
     rhs._impl = nullptr;
+    decr(_impl);
+    _impl = impl;
     return *this;
 }
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    if (_impl == nullptr) return false;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From e71e2338c4790630660fee1709d5b013d9121f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:56 +0000
Subject: [PATCH 06/72] fix: keep buffer references on self assignment and
 synchronize the reference count check

---
 include/Pothos/Framework/BufferChunk.hpp   | 2 ++
 include/Pothos/Framework/ManagedBuffer.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..08d8bf7 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
@@ -361,6 +362,7 @@ inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &ot
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(BufferChunk &&other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = std::move(other.address);
     length = std::move(other.length);
diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..d6e1791 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,6 +221,7 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
+    if (_impl == obj._impl) return *this;
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     if (_impl != nullptr) _impl->incr();
@@ -229,6 +230,7 @@ inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuff
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(ManagedBuffer &&obj)
 {
+    if (this == &obj) return *this;
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     obj._impl = nullptr;
@@ -249,13 +251,13 @@ inline bool Pothos::ManagedBuffer::operator<(const ManagedBuffer &rhs) const
 inline bool Pothos::ManagedBuffer::unique(void) const
 {
     if (_impl == nullptr) return false;
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 inline size_t Pothos::ManagedBuffer::useCount(void) const
 {
     if (_impl == nullptr) return 0;
-    return _impl->counter.load(std::memory_order_relaxed);
+    return _impl->counter.load(std::memory_order_acquire);
 }
 
 inline void Pothos::ManagedBuffer::setNextBuffer(const ManagedBuffer &next)
-- 
2.43.0


From 03eab82fd6cc775c5dbba62440fe0204c2c57348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:46 +0000
Subject: [PATCH 07/72] fix: access the wait mode and active state flags
 atomically

---
 lib/Framework/ThreadEnvironment.cpp | 10 ++++------
 lib/Framework/ThreadEnvironment.hpp |  2 +-
 lib/Framework/WorkerActor.hpp       |  2 +-
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/Framework/ThreadEnvironment.cpp b/lib/Framework/ThreadEnvironment.cpp
index f432141..8c6bea9 100644
--- a/lib/Framework/ThreadEnvironment.cpp
+++ b/lib/Framework/ThreadEnvironment.cpp
@@ -28,8 +28,7 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
     std::lock_guard<std::mutex> lock(_registrationMutex);
 
     //disable wait mode
-    bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    const bool waitModeEnabled = _waitModeEnabled.exchange(false);
 
     //register the new task and bump the signature to notify threads
     {
@@ -56,7 +55,7 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
     }
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    _waitModeEnabled = waitModeEnabled;
 }
 
 void ThreadEnvironment::unregisterTask(void *handle)
@@ -65,8 +64,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
     std::shared_ptr<TaskData> data;
 
     //disable wait mode
-    bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    const bool waitModeEnabled = _waitModeEnabled.exchange(false);
 
     //unregister the new task and bump the signature to notify threads
     {
@@ -102,7 +100,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
     while (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    _waitModeEnabled = waitModeEnabled;
 }
 
 /*!
diff --git a/lib/Framework/ThreadEnvironment.hpp b/lib/Framework/ThreadEnvironment.hpp
index 78337db..3013784 100644
--- a/lib/Framework/ThreadEnvironment.hpp
+++ b/lib/Framework/ThreadEnvironment.hpp
@@ -106,7 +106,7 @@ private:
     Pothos::ThreadPoolArgs _args;
 
     //whether or not waiting is allowed based on args
-    bool _waitModeEnabled;
+    std::atomic<bool> _waitModeEnabled;
 
     //map of handle handles to tasks
     std::map<void *, std::shared_ptr<TaskData>> _handleToTask;
diff --git a/lib/Framework/WorkerActor.hpp b/lib/Framework/WorkerActor.hpp
index b2d9d7a..6d86228 100644
--- a/lib/Framework/WorkerActor.hpp
+++ b/lib/Framework/WorkerActor.hpp
@@ -63,7 +63,7 @@ public:
 
     ///////////////////// WorkerActor storage ///////////////////////
     Block *block;
-    bool activeState;
+    std::atomic<bool> activeState;
     std::atomic<int> activityIndicator;
     std::set<std::string> automaticSlots;
     std::map<std::string, std::unique_ptr<InputPort>> inputs;
-- 
2.43.0


From e6b2de77ea40625e88087bbb3b3f1997f911bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:01 +0000
Subject: [PATCH 08/72] fix: return the requested type from getBuffer() when
 the front buffer is used

---
 lib/Framework/OutputPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Framework/OutputPort.cpp b/lib/Framework/OutputPort.cpp
index f5fb593..9af7a67 100644
--- a/lib/Framework/OutputPort.cpp
+++ b/lib/Framework/OutputPort.cpp
@@ -48,6 +48,7 @@ Pothos::BufferChunk Pothos::OutputPort::getBuffer(const DType &dtype, const size
     if (_buffer.length >= numBytes)
     {
         _buffer.length = numBytes;
+        _buffer.dtype = dtype;
         if (_bufferFromManager)
         {
             std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);
-- 
2.43.0


From 4881f4a47f2ba700de3338be8b17cd6d0a016fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:44 +0000
Subject: [PATCH 09/72] fix: map circular buffers over their address
 reservation

---
 lib/Framework/SharedBufferUnix.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/lib/Framework/SharedBufferUnix.cpp b/lib/Framework/SharedBufferUnix.cpp
index da55b32..1d77856 100644
--- a/lib/Framework/SharedBufferUnix.cpp
+++ b/lib/Framework/SharedBufferUnix.cpp
@@ -119,11 +119,8 @@ private:
 
     void cleanup(void)
     {
-        if (mapPtr1 != MAP_FAILED) munmap(mapPtr1, _numBytes);
-        mapPtr1 = MAP_FAILED;
-
-        if (mapPtr0 != MAP_FAILED) munmap(mapPtr0, _numBytes);
-        mapPtr0 = MAP_FAILED;
+        if (virtualAddr2X != MAP_FAILED) munmap(virtualAddr2X, _numBytes*2);
+        virtualAddr2X = MAP_FAILED;
 
         if (tmpFd >= 0)
         {
@@ -135,16 +132,12 @@ private:
     const size_t _numBytes;
     void *virtualAddr2X;
     int tmpFd;
-    void *mapPtr0;
-    void *mapPtr1;
 };
 
 CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
     _numBytes(numBytes),
-    virtualAddr2X(nullptr),
-    tmpFd(-1),
-    mapPtr0(MAP_FAILED),
-    mapPtr1(MAP_FAILED)
+    virtualAddr2X(MAP_FAILED),
+    tmpFd(-1)
 {
     int ret = 0;
 
@@ -172,25 +165,24 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         -1, off_t(0));
     if (virtualAddr2X == MAP_FAILED) this->errorOut("mmap(2x)");
 
-    ret = munmap(virtualAddr2X, numBytes*2);
-    if (ret != 0) this->errorOut("munmap(2x)");
-
     /*******************************************************************
      * Step 3) perform overlapping virtual mappings
+     * Replace the reservation from step 2 with fixed mappings,
+     * so that a mapping from another thread cannot come in between.
      ******************************************************************/
-    mapPtr0 = mmap(
+    void *mapPtr0 = mmap(
         virtualAddr2X,
         numBytes,
         PROT_READ | PROT_WRITE,
-        MAP_SHARED,
+        MAP_SHARED | MAP_FIXED,
         tmpFd, off_t(0));
     if (mapPtr0 == MAP_FAILED) this->errorOut("mmap(0)");
 
-    mapPtr1 = mmap(
+    void *mapPtr1 = mmap(
         (void *)(size_t(virtualAddr2X) + numBytes),
         numBytes,
         PROT_READ | PROT_WRITE,
-        MAP_SHARED,
+        MAP_SHARED | MAP_FIXED,
         tmpFd, off_t(0));
     if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");
 }
-- 
2.43.0


From 3a1f6e7ecf526f6c45d41d7723ac0a6e60c439af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:47 +0000
Subject: [PATCH 10/72] fix: keep input labels sorted when one is posted ahead
 of its element

---
 include/Pothos/Framework/InputPortImpl.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/InputPortImpl.hpp b/include/Pothos/Framework/InputPortImpl.hpp
index 6710a43..f052467 100644
--- a/include/Pothos/Framework/InputPortImpl.hpp
+++ b/include/Pothos/Framework/InputPortImpl.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 #include <Pothos/Framework/InputPort.hpp>
+#include <algorithm> //upper_bound
 #include <mutex> //lock_guard
 
 inline int Pothos::InputPort::index(void) const
@@ -164,9 +165,12 @@ inline void Pothos::InputPort::bufferAccumulatorFront(Pothos::BufferChunk &buff)
     std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
     while (not _inputInlineMessages.empty())
     {
-        _inlineMessages.push_back(std::move(_inputInlineMessages.front()));
-        _inlineMessages.back().adjust(1, this->dtype().size());
+        auto label = std::move(_inputInlineMessages.front());
         _inputInlineMessages.pop_front();
+        label.adjust(1, this->dtype().size());
+        //a label posted ahead of its element may sort after this one
+        const auto pos = std::upper_bound(_inlineMessages.begin(), _inlineMessages.end(), label);
+        _inlineMessages.insert(pos, std::move(label));
     }
     buff = _bufferAccumulator.front();
 }
-- 
2.43.0


From 0c9c85fc5664f6a8181041827610e78a40b0aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:36 +0000
Subject: [PATCH 11/72] fix: synchronize the buffer return callback with its
 replacement

---
 include/Pothos/Framework/BufferManager.hpp |  4 ++++
 lib/Framework/BufferManager.cpp            |  1 +
 lib/Framework/OutputPort.cpp               | 11 ++++++++---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/Pothos/Framework/BufferManager.hpp b/include/Pothos/Framework/BufferManager.hpp
index 7112f4b..b15e089 100644
--- a/include/Pothos/Framework/BufferManager.hpp
+++ b/include/Pothos/Framework/BufferManager.hpp
@@ -13,9 +13,11 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Framework/ManagedBuffer.hpp>
 #include <Pothos/Framework/BufferChunk.hpp>
+#include <Pothos/Util/SpinLock.hpp>
 #include <memory> //shared_ptr
 #include <string>
 #include <functional>
+#include <mutex> //lock_guard
 
 namespace Pothos {
 
@@ -177,6 +179,7 @@ private:
     bool _initialized;
     BufferChunk _frontBuffer;
     std::function<void(const ManagedBuffer &)> _callback;
+    Util::SpinLock _callbackLock; //the callback may change while buffers return
 };
 
 } //namespace Pothos
@@ -193,6 +196,7 @@ inline void Pothos::BufferManager::setFrontBuffer(const BufferChunk &buff)
 
 inline void Pothos::BufferManager::pushExternal(const ManagedBuffer &buff)
 {
+    std::lock_guard<Util::SpinLock> lock(_callbackLock);
     if (_callback) _callback(buff);
     else this->push(buff);
 }
diff --git a/lib/Framework/BufferManager.cpp b/lib/Framework/BufferManager.cpp
index a453272..5e97641 100644
--- a/lib/Framework/BufferManager.cpp
+++ b/lib/Framework/BufferManager.cpp
@@ -72,5 +72,6 @@ void Pothos::BufferManager::setAllocateFunction(const AllocateFcn& allocateFcn)
 
 void Pothos::BufferManager::setCallback(const std::function<void(const ManagedBuffer &)> &callback)
 {
+    std::lock_guard<Util::SpinLock> lock(_callbackLock);
     _callback = callback;
 }
diff --git a/lib/Framework/OutputPort.cpp b/lib/Framework/OutputPort.cpp
index 9af7a67..a67922b 100644
--- a/lib/Framework/OutputPort.cpp
+++ b/lib/Framework/OutputPort.cpp
@@ -26,7 +26,9 @@ Pothos::OutputPort::OutputPort(void):
 
 Pothos::OutputPort::~OutputPort(void)
 {
-    return;
+    //buffers and tokens held downstream may return after this port is gone
+    if (_bufferManager) _bufferManager->setCallback(nullptr);
+    if (_tokenManager) _tokenManager->setCallback(nullptr);
 }
 
 const std::string &Pothos::OutputPort::alias(void) const
@@ -94,8 +96,11 @@ void Pothos::OutputPort::bufferManagerPush(Pothos::Util::SpinLock *mutex, const
 
 void Pothos::OutputPort::bufferManagerSetup(const Pothos::BufferManager::Sptr &manager)
 {
-    std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);
-    _bufferManager = manager;
+    {
+        std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);
+        if (_bufferManager == manager) return; //already installed
+        _bufferManager = manager;
+    }
     if (manager) manager->setCallback(std::bind(
         &Pothos::OutputPort::bufferManagerPush, this, &_bufferManagerLock, std::placeholders::_1));
 }
-- 
2.43.0


From 003227349b71df0cfc7030adc782ca97471decec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:38 +0000
Subject: [PATCH 12/72] fix: count input buffers atomically

---
 include/Pothos/Framework/InputPort.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/InputPort.hpp b/include/Pothos/Framework/InputPort.hpp
index 09f325b..3d143b6 100644
--- a/include/Pothos/Framework/InputPort.hpp
+++ b/include/Pothos/Framework/InputPort.hpp
@@ -17,6 +17,7 @@
 #include <Pothos/Framework/BufferAccumulator.hpp>
 #include <Pothos/Util/RingDeque.hpp>
 #include <Pothos/Util/SpinLock.hpp>
+#include <atomic>
 #include <string>
 
 namespace Pothos {
@@ -219,7 +220,7 @@ private:
 
     //port stats
     unsigned long long _totalElements;
-    unsigned long long _totalBuffers;
+    std::atomic<unsigned long long> _totalBuffers; //counted by the producer threads
     unsigned long long _totalLabels;
     unsigned long long _totalMessages;
 
-- 
2.43.0


From 835d7b6d1f92bff7d194a1963903cd2ae3815424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:43 +0000
Subject: [PATCH 13/72] fix: keep topology port lists in step with its flows on
 refused and repeated requests

---
 lib/Framework/Topology.cpp | 58 +++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 23ca564..c804261 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -115,6 +115,23 @@ std::vector<Pothos::PortInfo> Pothos::Topology::outputPortInfo(void)
     return infos;
 }
 
+/*!
+ * Perform auto-deletion for the ports of a flow that is not in the topology.
+ * On a block this may or may not delete, on a topology this throws.
+ * Ports that are used by other flows in the topology are kept.
+ */
+static void autoDeletePorts(const std::vector<Flow> &flows, const Flow &flow)
+{
+    bool srcInUse = false, dstInUse = false;
+    for (const auto &other : flows)
+    {
+        if (other.src == flow.src) srcInUse = true;
+        if (other.dst == flow.dst) dstInUse = true;
+    }
+    if (flow.src.obj and not srcInUse) try{getInternalBlock(flow.src.obj).get("_actor").call("autoDeleteOutput", flow.src.name);}catch(const Pothos::Exception &){}
+    if (flow.dst.obj and not dstInUse) try{getInternalBlock(flow.dst.obj).get("_actor").call("autoDeleteInput", flow.dst.name);}catch(const Pothos::Exception &){}
+}
+
 void Pothos::Topology::_connect(
     const Object &src, const std::string &srcName,
     const Object &dst, const std::string &dstName)
@@ -128,6 +145,10 @@ void Pothos::Topology::_connect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
+
     //perform auto-allocation, on a block this may or may not allocate, on a topology this throws
     try{getConnectable(src).get("_actor").call("autoAllocateOutput", srcName);}catch(const Exception &){}
     try{getConnectable(dst).get("_actor").call("autoAllocateInput", dstName);}catch(const Exception &){}
@@ -137,14 +158,20 @@ void Pothos::Topology::_connect(
     {
         std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
         if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
+        {
+            autoDeletePorts(_impl->flows, flow);
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.src.toString() + " has no output port named " + srcName);
+        }
     }
 
     if (flow.dst.obj)
     {
         std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
         if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
+        {
+            autoDeletePorts(_impl->flows, flow);
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.dst.toString() + " has no input port named " + dstName);
+        }
     }
 
     //store port info for connections to the hierarchy
@@ -187,10 +214,6 @@ void Pothos::Topology::_connect(
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     _impl->flows.push_back(flow);
 }
 
@@ -207,28 +230,17 @@ void Pothos::Topology::_disconnect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
-    //validate that the ports exists before disconnection
-    std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
-    if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
-
-    std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
-    if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
-
-    //clear port info for disconnections from the hierarchy
-    if (not flow.src.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), srcName));
-    if (not flow.dst.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), dstName));
-
     const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
     if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
         Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
 
-    //perform auto-deletion, on a block this may or may not delete, on a topology this throws
-    try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
-    try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
-
     _impl->flows.erase(it);
+
+    //clear port info for disconnections from the hierarchy
+    if (not flow.src.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), srcName));
+    if (not flow.dst.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), dstName));
+
+    autoDeletePorts(_impl->flows, flow);
 }
 
 void Pothos::Topology::disconnectAll(const bool recursive)
@@ -257,8 +269,10 @@ void Pothos::Topology::disconnectAll(const bool recursive)
         if (flow.dst.obj) try{getInternalBlock(flow.dst.obj).get("_actor").call("autoDeleteInput", flow.dst.name);}catch(const Exception &){}
     }
 
-    //clear our own local flows
+    //clear our own local flows and the port info for connections to the hierarchy
     _impl->flows.clear();
+    _impl->inputPortNames.clear();
+    _impl->outputPortNames.clear();
 }
 
 bool Pothos::Topology::waitInactive(const double idleDuration, const double timeout)
-- 
2.43.0


From de357cde304d811b0e2eef4a01f9f0a9e603a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:43 +0000
Subject: [PATCH 14/72] fix: allocate and delete automatic ports in the context
 of the block

---
 lib/Framework/WorkerActorPortAllocation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f946af8..c47203c 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -101,12 +101,18 @@ void Pothos::WorkerActor::allocateSlot(const std::string &name)
 
 void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames, name);
 }
 
 void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
+    const bool existed = this->outputs.count(name) != 0;
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
+
+    //an active block needs a buffer manager for the new port to continue working before the next commit
+    if (this->activeState and not existed and this->outputs.count(name) != 0) this->ensureOutputBufferManagerNoLock(name);
 }
 
 void Pothos::WorkerActor::updatePorts(void)
@@ -163,10 +169,12 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
 void Pothos::WorkerActor::autoDeleteInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames);
 }
 
 void Pothos::WorkerActor::autoDeleteOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames);
 }
-- 
2.43.0


From f9fd00b58c96887eae8b35b10b01dfc5c3266a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:43 +0000
Subject: [PATCH 15/72] fix: follow flows through several pass-through
 topologies

---
 lib/Framework/TopologyCommit.cpp      | 45 ++++++++++++++++-----------
 lib/Framework/TopologySquashFlows.cpp | 20 ++++++++++--
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 4239cc6..cb32150 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -5,6 +5,7 @@
 #include <Pothos/Framework/Block.hpp>
 #include <Pothos/Framework/Exception.hpp>
 #include <Poco/Format.h>
+#include <algorithm>
 #include <iostream>
 #include <future>
 
@@ -164,35 +165,41 @@ static std::vector<Flow> completePassThroughFlows(const std::vector<Flow> &flows
     //std::cout << "completePassThroughFlows:" << std::endl;
     //for (const auto &flow : flows) std::cout << "  " << flow.toString() << std::endl;
 
-    //try to complete pass-through flows and add it to the out flow list
+    //add all already completed flows to the output flow
     for (auto &flow : flows)
     {
-        if (flow.src.obj or flow.dst.obj) continue;
-        for (auto &flowTail : flows)
+        if (flow.src.obj and flow.dst.obj)  outFlows.push_back(flow);
+    }
+
+    //follow each flow from a source into the topology ports that are passed through
+    //there can be several pass-through flows between the source and the destinations
+    for (auto &flowHead : flows)
+    {
+        if (not flowHead.src.obj or flowHead.dst.obj) continue;
+        std::vector<Port> passed(1, flowHead.dst);
+        for (size_t i = 0; i < passed.size(); i++)
         {
-            if (not flowTail.dst.obj) continue;
-            for (auto &flowHead : flows)
+            for (auto &flow : flows)
             {
-                if (not flowHead.src.obj) continue;
-                if (flow.src == flowTail.src and flow.dst == flowHead.dst)
+                if (flow.src.obj or not (flow.src == passed[i])) continue;
+
+                //continue through the next topology port
+                if (not flow.dst.obj)
                 {
-                    //create the new completed flow
-                    Flow newFlow;
-                    newFlow.src = flowHead.src;
-                    newFlow.dst = flowTail.dst;
-                    outFlows.push_back(newFlow);
-                    //std::cout << "NEW " << newFlow.toString() << std::endl;
+                    if (std::find(passed.begin(), passed.end(), flow.dst) == passed.end()) passed.push_back(flow.dst);
+                    continue;
                 }
+
+                //create the new completed flow
+                Flow newFlow;
+                newFlow.src = flowHead.src;
+                newFlow.dst = flow.dst;
+                if (std::find(outFlows.begin(), outFlows.end(), newFlow) == outFlows.end()) outFlows.push_back(newFlow);
+                //std::cout << "NEW " << newFlow.toString() << std::endl;
             }
         }
     }
 
-    //add all already completed flows to the output flow
-    for (auto &flow : flows)
-    {
-        if (flow.src.obj and flow.dst.obj)  outFlows.push_back(flow);
-    }
-
     return outFlows;
 }
 
diff --git a/lib/Framework/TopologySquashFlows.cpp b/lib/Framework/TopologySquashFlows.cpp
index 8a6b963..7cafc83 100644
--- a/lib/Framework/TopologySquashFlows.cpp
+++ b/lib/Framework/TopologySquashFlows.cpp
@@ -9,6 +9,16 @@
  **********************************************************************/
 static std::vector<Port> resolvePorts(const Port &port, const bool isSource);
 
+/*!
+ * A pass-through flow resolves to the ports of the topology itself.
+ * Input and output ports can share a name, so the uid is made different.
+ */
+static Port passThroughPort(Port port, const bool isOutput)
+{
+    port.uid += isOutput?"/out":"/in";
+    return port;
+}
+
 std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std::string &portName, const bool isSource)
 {
     std::vector<Port> ports;
@@ -19,12 +29,12 @@ std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std:
         if (isSource and flow.dst.name == portName and not flow.dst.obj)
         {
             if (flow.src.obj) subPorts = resolvePorts(flow.src, isSource);
-            else ports.push_back(flow.src);
+            else subPorts.push_back(passThroughPort(flow.dst, true));
         }
         if (not isSource and flow.src.name == portName and not flow.src.obj)
         {
             if (flow.dst.obj) subPorts = resolvePorts(flow.dst, isSource);
-            else ports.push_back(flow.dst);
+            else subPorts.push_back(passThroughPort(flow.src, false));
         }
         ports.insert(ports.end(), subPorts.begin(), subPorts.end());
     }
@@ -167,7 +177,11 @@ std::vector<Flow> Pothos::Topology::Impl::squashFlows(const std::vector<Flow> &f
     //the outer topology will squash the pass-through flows
     for (const auto &flow : flows)
     {
-        if (not flow.src.obj and not flow.dst.obj) flatFlows.push_back(flow);
+        if (flow.src.obj or flow.dst.obj) continue;
+        Flow flatFlow;
+        flatFlow.src = passThroughPort(flow.src, false);
+        flatFlow.dst = passThroughPort(flow.dst, true);
+        flatFlows.push_back(flatFlow);
     }
 
     //only store the actual blocks
-- 
2.43.0


From 4c61f8c57be3ffbc9f6129a62342f5dfd32494eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:43 +0000
Subject: [PATCH 16/72] fix: flatten chained pass-through connections in the
 topology dump

---
 lib/Framework/TopologyDumpJSON.cpp | 131 +++++++++--------------------
 1 file changed, 42 insertions(+), 89 deletions(-)

diff --git a/lib/Framework/TopologyDumpJSON.cpp b/lib/Framework/TopologyDumpJSON.cpp
index 43b14f6..95c1a0c 100644
--- a/lib/Framework/TopologyDumpJSON.cpp
+++ b/lib/Framework/TopologyDumpJSON.cpp
@@ -6,6 +6,8 @@
 #include "Framework/TopologyImpl.hpp"
 #include <Pothos/Proxy.hpp>
 #include <json.hpp>
+#include <algorithm>
+#include <tuple>
 
 using json = nlohmann::json;
 
@@ -14,50 +16,9 @@ static bool blockIsHier(const json &blockObj)
     return blockObj.count("connections") != 0;
 }
 
-static std::vector<std::pair<std::string, std::string>> resolvePorts(
-    const json &topObj,
-    const std::string &blockId,
-    const std::string &portName,
-    const bool resolveSrc
-)
-{
-    std::vector<std::pair<std::string, std::string>> results;
-
-    const auto blocksObj = topObj["blocks"];
-    if (blocksObj.count(blockId) == 0) return results;
-    const auto &blockObj = blocksObj[blockId];
-
-    if (not blockIsHier(blockObj))
-    {
-        results.emplace_back(blockId, portName);
-        return results;
-    }
-
-    for (const auto &subConnObj : blockObj.value("connections", json::array()))
-    {
-        std::string subId, subName;
-
-        if (resolveSrc)
-        {
-            if (subConnObj["dstId"].get<std::string>() != blockId) continue;
-            if (subConnObj["dstName"].get<std::string>() != portName) continue;
-            subId = subConnObj["srcId"].get<std::string>();
-            subName = subConnObj["srcName"].get<std::string>();
-        }
-        else
-        {
-            if (subConnObj["srcId"].get<std::string>() != blockId) continue;
-            if (subConnObj["srcName"].get<std::string>() != portName) continue;
-            subId = subConnObj["dstId"].get<std::string>();
-            subName = subConnObj["dstName"].get<std::string>();
-        }
-
-        //ignore pass-through connections in this loop
-        if (subId != blockId) results.emplace_back(subId, subName);
-    }
-
-    return results;
-}
+//a port in the flattened connections: block ID, port name,
+//and "in" or "out" for the port of a hierarchy that is being flattened
+typedef std::tuple<std::string, std::string, std::string> DumpPort;
 
 static bool flattenDump(json &topObj)
 {
@@ -86,60 +47,52 @@ static bool flattenDump(json &topObj)
         else flatBlocksObj[it.key()] = blockObj;
     }
 
-    //create new connections array folding out depth 1 hierarchies
-    json flatConnsArray(json::array());
+    //gather the connections between the blocks, and within depth 1 hierarchies
+    std::vector<std::pair<DumpPort, DumpPort>> conns;
     for (const auto &connObj : topObj.value("connections", json::array()))
     {
-        for (const auto & resolvedSrc : resolvePorts(topObj, connObj["srcId"].get<std::string>(), connObj["srcName"].get<std::string>(), true))
+        const std::string srcId = connObj["srcId"], dstId = connObj["dstId"];
+        if (blocksObj.count(srcId) == 0 or blocksObj.count(dstId) == 0) continue;
+        conns.emplace_back(
+            DumpPort(srcId, connObj["srcName"].get<std::string>(), blockIsHier(blocksObj[srcId])?"out":""),
+            DumpPort(dstId, connObj["dstName"].get<std::string>(), blockIsHier(blocksObj[dstId])?"in":""));
+    }
+    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
+    {
+        if (not blockIsHier(it.value())) continue;
+        for (const auto &connObj : it.value().value("connections", json::array()))
         {
-            for (const auto & resolvedDst : resolvePorts(topObj, connObj["dstId"].get<std::string>(), connObj["dstName"].get<std::string>(), false))
-            {
-                json flatConnObj;
-                flatConnObj["srcId"] = resolvedSrc.first;
-                flatConnObj["srcName"] = resolvedSrc.second;
-                flatConnObj["dstId"] = resolvedDst.first;
-                flatConnObj["dstName"] = resolvedDst.second;
-                flatConnsArray.push_back(flatConnObj);
-            }
+            const std::string srcId = connObj["srcId"], dstId = connObj["dstId"];
+            conns.emplace_back(
+                DumpPort(srcId, connObj["srcName"].get<std::string>(), (srcId == it.key())?"in":""),
+                DumpPort(dstId, connObj["dstName"].get<std::string>(), (dstId == it.key())?"out":""));
         }
     }
 
-    //resolve pass-through connections and totally internal connections
-    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
+    //create new connections array folding out depth 1 hierarchies
+    //follow each connection through the hierarchy ports to its destinations
+    json flatConnsArray(json::array());
+    for (const auto &conn : conns)
     {
-        const auto &blockObj = it.value();
-        if (not blockIsHier(blockObj)) continue;
-
-        for (const auto &subConnObj : blockObj.value("connections", json::array()))
+        if (not std::get<2>(conn.first).empty()) continue;
+        std::vector<DumpPort> ports(1, conn.second);
+        for (size_t i = 0; i < ports.size(); i++)
         {
-            const bool srcIsThis = subConnObj["srcId"].get<std::string>() == it.key();
-            const bool dstIsThis = subConnObj["dstId"].get<std::string>() == it.key();
-
-            //totally internal connection
-            if (not srcIsThis and not dstIsThis) flatConnsArray.push_back(subConnObj);
-
-            //otherwise not a pass-through
-            if (not srcIsThis or not dstIsThis) continue;
-
-            //find sources where the destination is this pass-through
-            for (const auto &connObj_s : topObj.value("connections", json::array()))
+            const auto port = ports[i];
+            if (std::get<2>(port).empty())
+            {
+                json flatConnObj;
+                flatConnObj["srcId"] = std::get<0>(conn.first);
+                flatConnObj["srcName"] = std::get<1>(conn.first);
+                flatConnObj["dstId"] = std::get<0>(port);
+                flatConnObj["dstName"] = std::get<1>(port);
+                flatConnsArray.push_back(flatConnObj);
+                continue;
+            }
+            for (const auto &next : conns)
             {
-                if (connObj_s["dstId"].get<std::string>() != it.key()) continue;
-                if (connObj_s["dstName"].get<std::string>() != subConnObj["srcName"].get<std::string>()) continue;
-
-                //find sources where the destination is this pass-through
-                for (const auto &connObj_d : topObj.value("connections", json::array()))
-                {
-                    if (connObj_d["srcId"].get<std::string>() != it.key()) continue;
-                    if (connObj_d["srcName"].get<std::string>() != subConnObj["dstName"].get<std::string>()) continue;
-
-                    json flatConnObj;
-                    flatConnObj["srcId"] = connObj_s["srcId"];
-                    flatConnObj["srcName"] = connObj_s["srcName"];
-                    flatConnObj["dstId"] = connObj_d["dstId"];
-                    flatConnObj["dstName"] = connObj_d["dstName"];
-                    flatConnsArray.push_back(flatConnObj);
-                }
+                if (next.first != port) continue;
+                if (std::find(ports.begin(), ports.end(), next.second) == ports.end()) ports.push_back(next.second);
             }
         }
     }
-- 
2.43.0


From 2eccba5b6005e8c2d6d24bef09a8f37bae75035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 17/72] fix: number conversion range check is exact

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 38 ++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index d74c016..474a7c8 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -11,6 +11,7 @@
 #include <Pothos/Plugin.hpp>
 #include <Pothos/Callable.hpp>
 #include <Poco/Format.h>
+#include <cmath>
 #include <limits>
 #include <complex>
 #include <string>
@@ -43,18 +44,46 @@ typedef std::complex<double> cdouble;
  **********************************************************************/
 
 //! check if the input value can fit into the output type
+//integer to integer: compare the magnitudes without a loss of precision
+template <typename OutType, typename InType>
+typename std::enable_if<std::is_integral<OutType>::value and std::is_integral<InType>::value, bool>::type
+convertNumInRange(const InType &in)
+{
+    if (in < InType(0)) return std::is_signed<OutType>::value and
+        sllong(in) >= sllong(std::numeric_limits<OutType>::lowest());
+    return ullong(in) <= ullong(std::numeric_limits<OutType>::max());
+}
+
+//floating point to integer: the maximum may not be representable as a double, and not a number is never in range
+template <typename OutType, typename InType>
+typename std::enable_if<std::is_integral<OutType>::value and std::is_floating_point<InType>::value, bool>::type
+convertNumInRange(const InType &in)
+{
+    return double(in) >= double(std::numeric_limits<OutType>::lowest()) and
+        double(in) <= double(std::numeric_limits<OutType>::max()) and
+        double(in) < std::ldexp(1.0, std::numeric_limits<OutType>::digits);
+}
+
+//any number to floating point: infinities are preserved
+template <typename OutType, typename InType>
+typename std::enable_if<std::is_floating_point<OutType>::value, bool>::type
+convertNumInRange(const InType &in)
+{
+    if (std::isinf(double(in))) return true;
+    return not (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
+        double(in) < double(std::numeric_limits<OutType>::lowest())); //too small
+}
+
 template <typename OutType, typename InType>
 void convertNumCheck(const InType &in)
 {
-    if (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
-        double(in) < double(std::numeric_limits<OutType>::lowest())) //too small
+    if (not convertNumInRange<OutType>(in))
     {
         throw Pothos::RangeException(Poco::format("value %s out of range for output type %s",
             std::to_string(in), Pothos::Util::typeInfoToString(typeid(OutType))));
     }
 }
 
-//! we will assign real to an integer, imaginary should be zero
 template <typename OutType, typename InType>
 void convertNumCheck(const std::complex<InType> &in)
 {
@@ -86,12 +115,15 @@ void convertNumHelper(const std::complex<InType> &in, OutType &out)
 template <typename InType, typename OutType>
 void convertNumHelper(const InType &in, std::complex<OutType> &out)
 {
+    convertNumCheck<OutType>(in);
     out = std::complex<OutType>(OutType(in));
 }
 
 template <typename InType, typename OutType>
 void convertNumHelper(const std::complex<InType> &in, std::complex<OutType> &out)
 {
+    convertNumCheck<OutType>(in.real());
+    convertNumCheck<OutType>(in.imag());
     out = std::complex<OutType>(OutType(in.real()), OutType(in.imag()));
 }
 
-- 
2.43.0


From 88dfe92ba75238bc98ec6307e20fbb3d70b836b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 18/72] fix: ObjectMap to ObjectKwargs keeps the text of string
 keys

---
 lib/Proxy/Builtin/ConvertContainers.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Proxy/Builtin/ConvertContainers.cpp b/lib/Proxy/Builtin/ConvertContainers.cpp
index f0df302..cafa2b0 100644
--- a/lib/Proxy/Builtin/ConvertContainers.cpp
+++ b/lib/Proxy/Builtin/ConvertContainers.cpp
@@ -4,6 +4,7 @@
 
 #include <Pothos/Framework.hpp>
 #include <Pothos/Object/Containers.hpp>
+#include <Pothos/Object/Exception.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Pothos/Plugin.hpp>
 #include <Pothos/Callable.hpp>
@@ -130,7 +131,10 @@ static Pothos::ObjectKwargs convertObjectMapToObjectKwargs(const Pothos::ObjectM
     Pothos::ObjectKwargs kwargs;
     for (const auto &pair : oMap)
     {
-        kwargs.emplace_hint(kwargs.end(), pair.first.toString(), pair.second);
+        //use the contents of string keys, toString() would add quotes
+        const auto key = (pair.first.type() == typeid(std::string))?pair.first.extract<std::string>():pair.first.toString();
+        if (not kwargs.emplace(key, pair.second).second) throw Pothos::ObjectConvertError(
+            "convertObjectMapToObjectKwargs()", "multiple keys for " + key);
     }
     return kwargs;
 }
-- 
2.43.0


From 533a56c45c6c666f4ade6fcc004b1c9402b11da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 19/72] fix: proxy ordering is consistent for mixed types

---
 lib/Proxy/Proxy.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/Proxy/Proxy.cpp b/lib/Proxy/Proxy.cpp
index 16957e2..92e754f 100644
--- a/lib/Proxy/Proxy.cpp
+++ b/lib/Proxy/Proxy.cpp
@@ -5,6 +5,7 @@
 #include <Pothos/Proxy/Handle.hpp>
 #include <Pothos/Proxy/Environment.hpp>
 #include <Pothos/Proxy/Exception.hpp>
+#include <Pothos/Util/CompareTo.hpp>
 #include <cassert>
 
 Pothos::Proxy::Proxy(void)
@@ -75,6 +76,32 @@ std::string Pothos::Proxy::getClassName(void) const
     return _handle->getClassName();
 }
 
+static bool isNumber(const Pothos::Proxy &proxy)
+{
+    try
+    {
+        proxy.compareTo(proxy.getEnvironment()->makeProxy(0.0));
+        return true;
+    }
+    catch (const Pothos::ProxyCompareError &)
+    {
+        return false;
+    }
+}
+
+/*!
+ * Sort proxies which cannot be compared: first the numbers (those can be compared with other types),
+ * then by class, and then by hash code. This keeps the order consistent for containers of mixed types.
+ */
+static int compareIncomparable(const Pothos::Proxy &lhs, const Pothos::Proxy &rhs)
+{
+    const bool num0 = isNumber(lhs), num1 = isNumber(rhs);
+    if (num0 != num1) return num0?-1:+1;
+    const auto class0 = lhs.getClassName(), class1 = rhs.getClassName();
+    if (class0 != class1) return Pothos::Util::compareTo(class0, class1);
+    return Pothos::Util::compareTo(lhs.hashCode(), rhs.hashCode());
+}
+
 bool Pothos::Proxy::operator<(const Pothos::Proxy &obj) const
 {
     try
@@ -83,7 +110,7 @@ bool Pothos::Proxy::operator<(const Pothos::Proxy &obj) const
     }
     catch (const Pothos::ProxyCompareError &)
     {
-        return this->hashCode() < obj.hashCode();
+        return compareIncomparable(*this, obj) < 0;
     }
 }
 
@@ -95,7 +122,7 @@ bool Pothos::Proxy::operator>(const Pothos::Proxy &obj) const
     }
     catch (const Pothos::ProxyCompareError &)
     {
-        return this->hashCode() > obj.hashCode();
+        return compareIncomparable(*this, obj) > 0;
     }
 }
 
-- 
2.43.0


From dd35bfdcfa63e3d615756e392fc4df586175f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 20/72] fix: exact object number comparison

---
 lib/Object/Compare.cpp | 45 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index bbf0fe8..e84cb8d 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -10,6 +10,7 @@
 #include <Pothos/Util/CompareTo.hpp>
 #include <Poco/Logger.h>
 #include <Poco/Format.h>
+#include <cmath>
 #include <mutex>
 #include <map>
 
@@ -73,6 +74,47 @@ pothos_static_block(pothosObjectCompareRegister)
     Pothos::PluginRegistry::addCall("/object/compare", &handleComparePluginEvent);
 }
 
+/***********************************************************************
+ * Comparison of numbers: a double cannot represent all 64-bit integers
+ **********************************************************************/
+template <typename T>
+void splitNumber(const T num, double &whole, double &part)
+{
+    const T low = num % T(4294967296);
+    whole = double(num - low);
+    part = double(low);
+}
+
+static void splitNumber(const double num, double &whole, double &part)
+{
+    whole = std::isfinite(num)?std::trunc(num/4294967296)*4294967296:num;
+    part = std::isfinite(num)?(num - whole):0.0;
+}
+
+//! split a number into the multiple of 2^32 and the rest, both are exact as a double
+static void splitNumber(const Pothos::Object &obj, double &whole, double &part)
+{
+    const auto &type = obj.type();
+    if (type == typeid(unsigned long) or type == typeid(unsigned long long))
+    {
+        splitNumber(obj.convert<unsigned long long>(), whole, part);
+    }
+    else if (type == typeid(signed long) or type == typeid(signed long long))
+    {
+        splitNumber(obj.convert<signed long long>(), whole, part);
+    }
+    else splitNumber(obj.convert<double>(), whole, part);
+}
+
+static int compareNumbers(const Pothos::Object &lhs, const Pothos::Object &rhs)
+{
+    double whole0, whole1, part0, part1;
+    splitNumber(lhs, whole0, part0);
+    splitNumber(rhs, whole1, part1);
+    if (whole0 == whole1) return Pothos::Util::compareTo(part0, part1);
+    return Pothos::Util::compareTo(whole0, whole1);
+}
+
 /***********************************************************************
  * The compare implementation
  **********************************************************************/
@@ -85,9 +127,10 @@ int Pothos::Object::compareTo(const Pothos::Object &other) const
     //try a number type just in the case that this is possible
     if (it == getCompareMap().end()) try
     {
-        return Pothos::Util::compareTo(double(*this), double(other));
+        return compareNumbers(*this, other);
     }
     catch(const Pothos::ObjectConvertError &){}
+    catch(const Pothos::RangeException &){} //complex
 
     //thow an error when the compare is not supported
     if (it == getCompareMap().end()) throw Pothos::ObjectCompareError(
-- 
2.43.0


From c32448dfcc3d92aa55ab9a9af313d4013572ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 21/72] fix: object ordering is consistent for mixed types and
 equality needs equal types when hashing

---
 lib/Object/Object.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index b6f6745..032c0dc 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Object/ObjectImpl.hpp>
 #include <Pothos/Object/Exception.hpp>
+#include <Pothos/Util/CompareTo.hpp>
 #include <Pothos/Util/TypeInfo.hpp>
 #include <Poco/Format.h>
 #include <cassert>
@@ -122,10 +123,36 @@ bool Pothos::Object::equals(const Object &obj) const
     }
     catch (const Pothos::ObjectCompareError &)
     {
-        return this->hashCode() == obj.hashCode();
+        return this->type() == obj.type() and this->hashCode() == obj.hashCode();
     }
 }
 
+static bool isNumber(const Pothos::Object &obj)
+{
+    try
+    {
+        obj.compareTo(Pothos::Object(0.0));
+        return true;
+    }
+    catch (const Pothos::ObjectCompareError &)
+    {
+        return false;
+    }
+}
+
+/*!
+ * Sort objects which cannot be compared: first the numbers (those can be compared with other types),
+ * then by type, and then by hash code. This keeps the order consistent for containers of mixed types.
+ */
+static int compareIncomparable(const Pothos::Object &lhs, const Pothos::Object &rhs)
+{
+    const bool num0 = isNumber(lhs), num1 = isNumber(rhs);
+    if (num0 != num1) return num0?-1:+1;
+    const auto type0 = lhs.type().hash_code(), type1 = rhs.type().hash_code();
+    if (type0 != type1) return Pothos::Util::compareTo(type0, type1);
+    return Pothos::Util::compareTo(lhs.hashCode(), rhs.hashCode());
+}
+
 bool Pothos::Object::operator<(const Pothos::Object &obj) const
 {
     try
@@ -134,7 +161,7 @@ bool Pothos::Object::operator<(const Pothos::Object &obj) const
     }
     catch (const Pothos::ObjectCompareError &)
     {
-        return this->hashCode() < obj.hashCode();
+        return compareIncomparable(*this, obj) < 0;
     }
 }
 
@@ -146,7 +173,7 @@ bool Pothos::Object::operator>(const Pothos::Object &obj) const
     }
     catch (const Pothos::ObjectCompareError &)
     {
-        return this->hashCode() > obj.hashCode();
+        return compareIncomparable(*this, obj) > 0;
     }
 }
 
-- 
2.43.0


From 797741f28305091960a88a62f70a6f530e10fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 22/72] fix: hash complex numbers by value

---
 lib/Object/Builtin/Hash.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Object/Builtin/Hash.cpp b/lib/Object/Builtin/Hash.cpp
index ba1a5c4..54ea7cd 100644
--- a/lib/Object/Builtin/Hash.cpp
+++ b/lib/Object/Builtin/Hash.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Plugin.hpp>
 #include <functional> //std::hash
+#include <complex>
 #include <string>
 
 static size_t hashNullObject(const Pothos::NullObject &obj)
@@ -16,6 +17,13 @@ static size_t hashFunction(const T &v)
     return std::hash<T>()(v);
 }
 
+template <typename T>
+static size_t hashComplex(const std::complex<T> &v)
+{
+    const auto re = std::hash<T>()(v.real()), im = std::hash<T>()(v.imag());
+    return re ^ (im + 0x9e3779b9 + (re << 6) + (re >> 2));
+}
+
 pothos_static_block(pothosObjectRegisterHash)
 {
     Pothos::PluginRegistry::addCall("/object/hash/null", &hashNullObject);
@@ -33,5 +41,7 @@ pothos_static_block(pothosObjectRegisterHash)
     Pothos::PluginRegistry::addCall("/object/hash/ullong", &hashFunction<unsigned long long>);
     Pothos::PluginRegistry::addCall("/object/hash/float", &hashFunction<float>);
     Pothos::PluginRegistry::addCall("/object/hash/double", &hashFunction<double>);
+    Pothos::PluginRegistry::addCall("/object/hash/cfloat", &hashComplex<float>);
+    Pothos::PluginRegistry::addCall("/object/hash/cdouble", &hashComplex<double>);
     Pothos::PluginRegistry::addCall("/object/hash/string", &hashFunction<std::string>);
 }
-- 
2.43.0


From f4fe1622fa4e6d84cee65b1780966e1be9831036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:52 +0000
Subject: [PATCH 23/72] fix: look up plugin registry entries without inserting
 them under a shared lock

---
 lib/Plugin/Registry.cpp | 71 +++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 46 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..682196e 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,19 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//find the entry at a path without creating any nodes, null when not found
+static RegistryEntry *findRegistryEntry(const Pothos::PluginPath &path)
+{
+    RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : path.listNodes())
+    {
+        auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return nullptr;
+        root = &it->second;
+    }
+    return root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -93,7 +106,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         {
             parentPlugins.insert(parentPlugins.begin(), root->plugin);
             //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
+            root = &root->nodes.at(pathNodes[i]);
         }
         parentPlugins.insert(parentPlugins.begin(), root->plugin);
     }
@@ -188,17 +201,10 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (root == nullptr or not root->hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
@@ -213,17 +219,10 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
     Plugin plugin;
     {
         std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
-        const std::vector<std::string> pathNodes = path.listNodes();
-        RegistryEntry *root = &getRegistryRoot();
-
-        for (size_t i = 0; i < pathNodes.size(); i++)
-        {
-            //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
-        }
+        RegistryEntry *root = findRegistryEntry(path);
 
         //throw if the root does not have a plugin
-        if (not root->hasPlugin)
+        if (root == nullptr or not root->hasPlugin)
         {
             throw Pothos::PluginRegistryError("Pothos::PluginRegistry::remove("+path.toString()+")", "plugin path not found");
         }
@@ -242,49 +241,29 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return not root->hasPlugin;
+    return root == nullptr or not root->hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return root->getNumPlugins() != 0;
+    return root != nullptr and root->getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     std::vector<std::string> nodes;
+    if (root == nullptr) return nodes;
     for (const auto &name : root->nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root->nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


From 07bc10edd38597446c7cbacf942e823d8a7977c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:52 +0000
Subject: [PATCH 24/72] fix: reject empty plugin paths and compose paths below
 the root

---
 lib/Plugin/Path.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Path.cpp b/lib/Plugin/Path.cpp
index 0e0d3e7..ab0b7fb 100644
--- a/lib/Plugin/Path.cpp
+++ b/lib/Plugin/Path.cpp
@@ -8,6 +8,10 @@
 static void validatePathString(const std::string &path)
 {
     if (path == "/") return; //root path is ok, but may be funny for tokenizer since it ends in /
+    if (path.empty())
+    {
+        throw Pothos::PluginPathError("Pothos::PluginPath("+path+")", "must start with root slash");
+    }
     bool first = true;
     for (const auto &name : Poco::StringTokenizer(path, "/"))
     {
@@ -44,7 +48,8 @@ Pothos::PluginPath::PluginPath(const std::string &path):
 }
 
 Pothos::PluginPath::PluginPath(const PluginPath &path0, const PluginPath &path1):
-    _path(path0._path + path1._path) //should always be valid because of individual PluginPath rules
+    //should always be valid because of individual PluginPath rules, a root path adds nothing
+    _path((path0._path == "/")? path1._path : (path1._path == "/")? path0._path : (path0._path + path1._path))
 {
     validatePathString(_path);
 }
-- 
2.43.0


From a6c782812020886f00d29765a52a138b274a89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:52 +0000
Subject: [PATCH 25/72] fix: forget removed plugins in the type registries

---
 lib/Managed/Registry.cpp | 6 +++---
 lib/Object/Compare.cpp   | 2 +-
 lib/Object/Convert.cpp   | 2 +-
 lib/Object/Hash.cpp      | 2 +-
 lib/Object/ToString.cpp  | 2 +-
 lib/Proxy/Convert.cpp    | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/Managed/Registry.cpp b/lib/Managed/Registry.cpp
index 1c3d1bd..0579570 100644
--- a/lib/Managed/Registry.cpp
+++ b/lib/Managed/Registry.cpp
@@ -49,9 +49,9 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         }
         if (event == "remove")
         {
-            getClassMap()[reg.type().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.pointerType().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.sharedType().hash_code()] = Pothos::Plugin();
+            getClassMap().erase(reg.type().hash_code());
+            getClassMap().erase(reg.pointerType().hash_code());
+            getClassMap().erase(reg.sharedType().hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index e84cb8d..fe5efda 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -56,7 +56,7 @@ static void handleComparePluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getCompareMap()[typesHashCombine(t0, t1)] = Pothos::Plugin();
+            getCompareMap().erase(typesHashCombine(t0, t1));
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Convert.cpp b/lib/Object/Convert.cpp
index 84e9bf5..c2b19e7 100644
--- a/lib/Object/Convert.cpp
+++ b/lib/Object/Convert.cpp
@@ -64,7 +64,7 @@ static void handleConvertPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getConvertMap()[typesHashCombine(inputType, outputType)] = Pothos::Plugin();
+            getConvertMap().erase(typesHashCombine(inputType, outputType));
             getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
         }
     }
diff --git a/lib/Object/Hash.cpp b/lib/Object/Hash.cpp
index 1e0d16d..0acc355 100644
--- a/lib/Object/Hash.cpp
+++ b/lib/Object/Hash.cpp
@@ -49,7 +49,7 @@ static void handleHashFcnPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getHashFcnMap()[call.type(0).hash_code()] = Pothos::Plugin();
+            getHashFcnMap().erase(call.type(0).hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index 5c2fa35..a91f929 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -59,7 +59,7 @@ static void handleToStringPluginEvent(const Pothos::Plugin &plugin, const std::s
         }
         if (event == "remove")
         {
-            getToStringMap()[t.hash_code()] = Pothos::Plugin();
+            getToStringMap().erase(t.hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Proxy/Convert.cpp b/lib/Proxy/Convert.cpp
index 873805b..5612e90 100644
--- a/lib/Proxy/Convert.cpp
+++ b/lib/Proxy/Convert.cpp
@@ -105,7 +105,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToLocalMap()[hashIt(name, pair.first)] = Pothos::Plugin();
+                getConvertToLocalMap().erase(hashIt(name, pair.first));
             }
         }
         else if (isConvertToProxy(plugin))
@@ -118,7 +118,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToProxyMap()[hashIt(name, callable.type(1))] = Pothos::Plugin();
+                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
             }
         }
         else
-- 
2.43.0


From 53b79b5b2ea6cfa91d34051f547c74f48821f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:36 +0000
Subject: [PATCH 26/72] fix: reject unbalanced closing brackets and honour
 escaped backslashes in expressions

---
 lib/Util/EvalEnvironmentListParsers.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index 5101706..e5f6312 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: BSL-1.0
 
 #include <Pothos/Util/EvalEnvironment.hpp>
+#include <Pothos/Exception.hpp>
 #include <vector>
 #include <string>
 #include <stack>
@@ -11,7 +12,7 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
 {
     std::vector<std::string> tokens;
     std::stack<char> specials;
-    char previousCh = '\0';
+    bool inEscape = false;
     bool inQuotes = false;
     std::string field;
 
@@ -20,12 +21,15 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
         if (inQuotes)
         {
             field.push_back(ch);
-            if (ch == '"' and previousCh != '\\') inQuotes = false;
+            if (inEscape) inEscape = false;
+            else if (ch == '\\') inEscape = true;
+            else if (ch == '"') inQuotes = false;
         }
 
         else if ((ch == ')' and tokenizer != '\0') or ch == '}' or ch == ']')
         {
             field.push_back(ch);
+            if (specials.empty()) throw Pothos::Exception("EvalEnvironment::eval("+expr+")", std::string("unexpected ") + ch);
             if ((specials.top() == '(' and ch == ')') or
                 (specials.top() == '{' and ch == '}') or
                 (specials.top() == '[' and ch == ']')) specials.pop();
@@ -67,8 +71,6 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
         {
             if (not field.empty() or not std::isspace(ch)) field.push_back(ch);
         }
-
-        previousCh = ch;
     }
 
     if (not field.empty()) tokens.push_back(field);
-- 
2.43.0


From 8f4211e2b6dd7d85e00c16ab9b568c6e494098b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:36 +0000
Subject: [PATCH 27/72] fix: keep large whole numbers as floating point in
 expressions

---
 lib/Util/EvalEnvironment.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 4ed0548..154033b 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -17,6 +17,7 @@
 #include <Pothos/Object/Containers.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Poco/String.h>
+#include <cmath>
 #include <string>
 #include <vector>
 #include <map>
@@ -34,12 +35,15 @@ static Pothos::Object mupValueToObject(mup::IValue &val)
     switch (val.GetType())
     {
     case 'b': return Pothos::Object(val.GetBool());
-    case 'i': return Pothos::Object(val.GetInteger());
+    case 'i':
+        //whole numbers outside of the integer range remain floating point
+        if (not (std::abs(val.GetFloat()) < 9223372036854775808.0)) return Pothos::Object(val.GetFloat());
+        return Pothos::Object(val.GetInteger());
     case 'f': return Pothos::Object(val.GetFloat());
     case 'c': return Pothos::Object(val.GetComplex());
     case 's': return Pothos::Object(val.GetString());
     case 'm': break;
-    default: Pothos::Exception("EvalEnvironment::mupValueToObject()", "unknown type " + val.AsciiDump());
+    default: throw Pothos::Exception("EvalEnvironment::mupValueToObject()", "unknown type " + val.AsciiDump());
     }
 
     assert(val.GetType() == 'm');
@@ -87,7 +91,7 @@ static mup::Value objectToMupValue(const Pothos::Object &obj)
         if (dtype.isComplex()) return mup::Value(obj.convert<mup::cmplx_type>());
         if (dtype.isFloat()) return mup::Value(obj.convert<mup::float_type>());
         //types that fit into the parser's integer type, otherwise use floating point
-        if (dtype.size() <= sizeof(mup::int_type)) return mup::Value(obj.convert<mup::int_type>());
+        if (dtype.size() < sizeof(mup::int_type) or dtype.isSigned()) return mup::Value(obj.convert<mup::int_type>());
         else return mup::Value(obj.convert<mup::float_type>());
     }
     catch (...) {}
-- 
2.43.0


From 8aa9ddd72a43c751a2858a3c3414801688edc0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:36 +0000
Subject: [PATCH 28/72] fix: ignore white space around containers in
 expressions

---
 lib/Util/EvalEnvironment.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 154033b..c29cf46 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -200,9 +200,10 @@ void Pothos::Util::EvalEnvironment::unregisterConstant(const std::string &key)
     if (_impl->p.IsConstDefined(key)) _impl->p.RemoveConst(key);
 }
 
-Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expr)
+Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression)
 {
-    if (Poco::trim(expr).empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
+    const auto expr = Poco::trim(expression);
+    if (expr.empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
 
     //handle multiple containers in top level
     const auto tokens = EvalEnvironment::splitExpr(expr);
-- 
2.43.0


From 5ac359eb537d5aadd3b0999ba1e393865fa3d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:36 +0000
Subject: [PATCH 29/72] fix: keep temporary constants of nested and concurrent
 evaluations apart

---
 lib/Util/EvalEnvironment.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index c29cf46..e781f9e 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -152,7 +152,8 @@ struct Pothos::Util::EvalEnvironment::Impl
         p.DefineConst("False", false);
         p.DefineConst("j", std::complex<double>(0.0, 1.0));
     }
-    std::mutex parserMutex;
+    std::recursive_mutex parserMutex;
+    size_t tmpDepth = 0;
     mup::ParserX p;
 };
 
@@ -172,6 +173,7 @@ void Pothos::Util::EvalEnvironment::registerConstantExpr(const std::string &key,
     try
     {
         const auto result = objectToMupValue(this->eval(expr));
+        std::lock_guard<std::recursive_mutex> lock(_impl->parserMutex);
         this->unregisterConstant(key);
         _impl->p.DefineConst(key, result);
     }
@@ -186,6 +188,7 @@ void Pothos::Util::EvalEnvironment::registerConstantObj(const std::string &key,
     try
     {
         const auto result = objectToMupValue(obj);
+        std::lock_guard<std::recursive_mutex> lock(_impl->parserMutex);
         this->unregisterConstant(key);
         _impl->p.DefineConst(key, result);
     }
@@ -197,6 +200,7 @@ void Pothos::Util::EvalEnvironment::registerConstantObj(const std::string &key,
 
 void Pothos::Util::EvalEnvironment::unregisterConstant(const std::string &key)
 {
+    std::lock_guard<std::recursive_mutex> lock(_impl->parserMutex);
     if (_impl->p.IsConstDefined(key)) _impl->p.RemoveConst(key);
 }
 
@@ -209,16 +213,30 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression
     const auto tokens = EvalEnvironment::splitExpr(expr);
     if (tokens.size() > 1)
     {
-        size_t index = 0;
+        //the temporary constants exist only while this expression is evaluated
+        //and cannot be shared with other threads or enclosing expressions
+        std::lock_guard<std::recursive_mutex> lock(_impl->parserMutex);
+        struct TmpConstants
+        {
+            TmpConstants(EvalEnvironment &env): env(env), prefix(tmpTypeId + std::to_string(env._impl->tmpDepth++) + "_") {}
+            ~TmpConstants(void)
+            {
+                for (const auto &key : keys) env.unregisterConstant(key);
+                env._impl->tmpDepth--;
+            }
+            EvalEnvironment &env;
+            const std::string prefix;
+            std::vector<std::string> keys;
+        } tmp(*this);
         std::string newExpr;
         for (const auto &tok : tokens)
         {
             if (tok.empty()) continue;
             if (tok.front() == '[' or tok.front() == '{')
             {
-                const std::string key = tmpTypeId + std::to_string(index++);
-                this->registerConstantObj(key, this->eval(tok));
-                newExpr += key;
+                tmp.keys.push_back(tmp.prefix + std::to_string(tmp.keys.size()));
+                this->registerConstantObj(tmp.keys.back(), this->eval(tok));
+                newExpr += tmp.keys.back();
             }
             else
             {
@@ -239,7 +257,7 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression
     //use the muparser
     try
     {
-        std::lock_guard<std::mutex> lock(_impl->parserMutex);
+        std::lock_guard<std::recursive_mutex> lock(_impl->parserMutex);
         _impl->p.SetExpr(expr);
         mup::Value result = _impl->p.Eval();
         return mupValueToObject(result);
-- 
2.43.0


From 6ede55ca0103cff6e16857258195760190cd0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:24 +0000
Subject: [PATCH 30/72] fix: archive reader throws on a short read

---
 lib/Archive/StreamArchiver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Archive/StreamArchiver.cpp b/lib/Archive/StreamArchiver.cpp
index 1b95898..0d29f9c 100644
--- a/lib/Archive/StreamArchiver.cpp
+++ b/lib/Archive/StreamArchiver.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Archive/StreamArchiver.hpp>
 #include <Pothos/Archive/Numbers.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <iostream>
 
 #define POTHOS_ARCHIVE_VERSION 2
@@ -29,4 +30,5 @@ void Pothos::Archive::IStreamArchiver::readBytes(void *buff, const size_t len)
 {
     if (len == 0) return;
     is.read(reinterpret_cast<char *>(buff), len);
+    if (not is) throw Pothos::ArchiveException("IStreamArchiver::readBytes()", "unexpected end of stream");
 }
-- 
2.43.0


From 207c7391211aadeb42da7ba3e93681b21c602a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:24 +0000
Subject: [PATCH 31/72] fix: reject an over-long number encoding

---
 include/Pothos/Archive/Numbers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index 45b4ccc..113b201 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -22,6 +22,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Archive/Invoke.hpp>
 #include <Pothos/Archive/BinaryObject.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <type_traits>
 #include <limits> //is_iec559
 
@@ -134,6 +135,7 @@ typename std::enable_if<
     do
     {
         ar >> byte;
+        if (shift >= (sizeof(T)*8)) throw ArchiveException("Archive::load()", "integer encoding too long");
         value |= UnsignedT(byte & 0x7f) << shift;
         shift += 7;
     } while ((byte & 0x80) != 0);
@@ -178,6 +180,7 @@ typename std::enable_if<
     do
     {
         ar >> byte;
+        if (shift >= (sizeof(T)*8)) throw ArchiveException("Archive::load()", "integer encoding too long");
         t |= T(byte & 0x7f) << shift;
         shift += 7;
     } while ((byte & 0x80) != 0);
-- 
2.43.0


From 34ee13d533125c39448112b9370c48ee3ae02715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:24 +0000
Subject: [PATCH 32/72] fix: no leak when loading an archived object fails

---
 include/Pothos/Archive/ArchiveEntry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/ArchiveEntry.hpp b/include/Pothos/Archive/ArchiveEntry.hpp
index 970cb03..3a4b112 100644
--- a/include/Pothos/Archive/ArchiveEntry.hpp
+++ b/include/Pothos/Archive/ArchiveEntry.hpp
@@ -15,6 +15,7 @@
 #include <type_traits>
 #include <typeinfo>
 #include <iosfwd>
+#include <memory>
 #include <string>
 
 namespace Pothos {
@@ -104,7 +105,7 @@ void Pothos::Archive::ArchiveEntryT<T>::save(OStreamArchiver &ar, const void *t)
 template <typename T>
 void *Pothos::Archive::ArchiveEntryT<T>::load(IStreamArchiver &ar) const
 {
-    T *t = new T();
+    std::unique_ptr<T> t(new T());
     ar >> *t;
-    return t;
+    return t.release();
 }
-- 
2.43.0


From e3dac652954edd8dc20e527fcf40ba2897bb2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:24 +0000
Subject: [PATCH 33/72] fix: decoders do not allocate by an unverified length

---
 include/Pothos/Archive/String.hpp  | 14 +++++++++++---
 include/Pothos/Archive/Vector.hpp  |  7 ++++---
 lib/Proxy/Proxy.cpp                |  9 +++------
 lib/Remote/RemoteProxyDatagram.cpp | 15 ++++++++++-----
 4 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/include/Pothos/Archive/String.hpp b/include/Pothos/Archive/String.hpp
index 2e396ef..d26dc8d 100644
--- a/include/Pothos/Archive/String.hpp
+++ b/include/Pothos/Archive/String.hpp
@@ -13,6 +13,7 @@
 #include <Pothos/Archive/Invoke.hpp>
 #include <Pothos/Archive/Numbers.hpp>
 #include <Pothos/Archive/BinaryObject.hpp>
+#include <algorithm> //min
 #include <string>
 
 namespace Pothos {
@@ -31,9 +32,16 @@ void load(Archive &ar, std::basic_string<T, Traits, Allocator> &t, const unsigne
 {
     unsigned size(0);
     ar >> size;
-    t.resize(size);
-    BinaryObject bo(t.data(), t.size()*sizeof(T));
-    ar >> bo;
+
+    //the size is not trustworthy until the contents have been read
+    t.clear();
+    while (t.size() < size)
+    {
+        const size_t offset(t.size());
+        t.resize(std::min<size_t>(size, offset + 65536));
+        BinaryObject bo(&t[offset], (t.size()-offset)*sizeof(T));
+        ar >> bo;
+    }
 }
 
 template <typename Archive, typename T, typename Traits, typename Allocator>
diff --git a/include/Pothos/Archive/Vector.hpp b/include/Pothos/Archive/Vector.hpp
index 6d15603..91cc72c 100644
--- a/include/Pothos/Archive/Vector.hpp
+++ b/include/Pothos/Archive/Vector.hpp
@@ -12,6 +12,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Archive/Invoke.hpp>
 #include <Pothos/Archive/Numbers.hpp>
+#include <algorithm> //min
 #include <utility> //move
 #include <vector>
 
@@ -34,12 +35,12 @@ void load(Archive &ar, std::vector<bool, Allocator> &t, const unsigned int)
 {
     unsigned size(0);
     ar >> size;
-    t.resize(size);
+    t.clear();
     for (size_t i = 0; i < size_t(size); i++)
     {
         bool elem;
         ar >> elem;
-        t[i] = elem;
+        t.push_back(elem);
     }
 }
 
@@ -60,7 +61,7 @@ void load(Archive &ar, std::vector<T, Allocator> &t, const unsigned int)
     unsigned size(0);
     ar >> size;
     t.clear();
-    t.reserve(size);
+    t.reserve(std::min<size_t>(size, 4096)); //the size is not trustworthy until the elements have been read
     for (size_t i = 0; i < size_t(size); i++)
     {
         T elem;
diff --git a/lib/Proxy/Proxy.cpp b/lib/Proxy/Proxy.cpp
index 92e754f..facd022 100644
--- a/lib/Proxy/Proxy.cpp
+++ b/lib/Proxy/Proxy.cpp
@@ -164,15 +164,12 @@ void load(Archive & ar, Pothos::Proxy &t, const unsigned int)
     auto env = Pothos::ProxyEnvironment::make(name);
 
     //extract length and buffer
-    Poco::UInt32 length = 0;
-    ar >> length;
-    auto buff = std::vector<char>(size_t(length));
-    Pothos::serialization::BinaryObject bo(buff.data(), buff.size());
-    ar >> bo;
+    std::string buff;
+    ar >> buff;
 
     //deserialize from stringstream
     std::stringstream ss;
-    ss.write((const char *)buff.data(), buff.size());
+    ss.write(buff.data(), buff.size());
     t = env->deserialize(ss);
 }
 }}
diff --git a/lib/Remote/RemoteProxyDatagram.cpp b/lib/Remote/RemoteProxyDatagram.cpp
index c9f7fef..00294c5 100644
--- a/lib/Remote/RemoteProxyDatagram.cpp
+++ b/lib/Remote/RemoteProxyDatagram.cpp
@@ -116,12 +116,17 @@ public:
         {
             throw Pothos::IOException("recvDatagram()", "headerWord fail");
         }
-        _payloadData.resize(Poco::ByteOrder::fromNetwork(header.payloadBytes));
+        const size_t payloadBytes = Poco::ByteOrder::fromNetwork(header.payloadBytes);
 
-        //read the payload
-        is.read(_payloadData.data(), _payloadData.size());
-        if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
-        if (not is) throw Pothos::IOException("recvDatagram()", "stream error");
+        //read the payload: the size is not trustworthy until the contents have been read
+        while (_payloadData.size() < payloadBytes)
+        {
+            const size_t offset = _payloadData.size();
+            _payloadData.resize(std::min<size_t>(payloadBytes, offset + (1 << 20)));
+            is.read(_payloadData.data()+offset, _payloadData.size()-offset);
+            if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
+            if (not is) throw Pothos::IOException("recvDatagram()", "stream error");
+        }
 
         //read the trailer
         PothosRPCTrailer trailer;
-- 
2.43.0


From d31a9597c6c8c59cc75113b93590cd47533d06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:24 +0000
Subject: [PATCH 34/72] fix: validate a loaded data type

---
 include/Pothos/Framework/BufferChunk.hpp | 3 ++-
 lib/Framework/DType.cpp                  | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 08d8bf7..a11935d 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -387,7 +387,8 @@ inline void Pothos::BufferChunk::clear(void)
 
 inline size_t Pothos::BufferChunk::elements(void) const
 {
-    return this->length/this->dtype.size();
+    const auto elemBytes = this->dtype.size();
+    return (elemBytes == 0)?0:(this->length/elemBytes);
 }
 
 inline void Pothos::BufferChunk::setElements(const size_t numElements)
diff --git a/lib/Framework/DType.cpp b/lib/Framework/DType.cpp
index 9b5397c..503eec9 100644
--- a/lib/Framework/DType.cpp
+++ b/lib/Framework/DType.cpp
@@ -313,6 +313,13 @@ void Pothos::DType::serialize(Archive & ar, const unsigned int)
     ar & this->_elemType;
     ar & this->_elemSize;
     ar & this->_dimension;
+
+    //check the type and size when loading
+    if (not Archive::isSave::value and (this->_elemType >= Length or
+        this->_elemSize == 0 or this->_elemSize != getElementTypeSuperMap().lookupElemSize(this->_elemType)))
+    {
+        throw Pothos::ArchiveException("Pothos::DType::serialize()", "invalid element type");
+    }
 }
 
 template void Pothos::DType::serialize<Pothos::Archive::IStreamArchiver>(Pothos::Archive::IStreamArchiver &, const unsigned int);
-- 
2.43.0


From f422e38bffa1093c53bda5fab049051db0d46e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:24 +0000
Subject: [PATCH 35/72] fix: remote handler rejects unknown object ids

---
 lib/Remote/ServerHandler.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 586fb6c..bff0b98 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -41,7 +41,9 @@ static Pothos::Object getObjectAtId(const Pothos::Object &id)
 {
     const size_t key(id);
     std::lock_guard<std::mutex> lock(getObjectsMutex());
-    return getObjectsMap()[key];
+    const auto it = getObjectsMap().find(key);
+    if (it == getObjectsMap().end()) throw Pothos::NotFoundException("RemoteHandler", "no object with ID " + std::to_string(key));
+    return it->second;
 }
 
 static void removeObjectAtId(const Pothos::Object &id)
@@ -92,20 +94,20 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "findProxy")
         {
-            const auto &env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
+            const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
             const auto &proxy = env->findProxy(reqArgs.at("name").extract<std::string>());
             replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));
         }
         else if (action == "convertObjectToProxy")
         {
-            const auto &env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
+            const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
             const auto &proxy = env->convertObjectToProxy(reqArgs.at("local"));
             replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));
         }
         else if (action == "convertProxyToObject")
         {
-            const auto &env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             auto local = env->convertProxyToObject(proxy);
             replyArgs["local"] = local;
         }
@@ -115,7 +117,7 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "call")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
 
             //load the args
             std::vector<Pothos::Proxy> args;
@@ -141,23 +143,23 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "compareTo")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
-            const auto &other = getObjectAtId(reqArgs.at("otherID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto other = getObjectAtId(reqArgs.at("otherID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.compareTo(other));
         }
         else if (action == "hashCode")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.hashCode());
         }
         else if (action == "toString")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.toString());
         }
         else if (action == "getClassName")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.getClassName());
         }
         else
-- 
2.43.0


From ac2808c45b142bba70ac468d0cb15a82d0359878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:24 +0000
Subject: [PATCH 36/72] fix: an argument or result that cannot be serialized
 does not end the remote connection

---
 lib/Object/Serialize.cpp     |  2 +-
 lib/Remote/ServerHandler.cpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Serialize.cpp b/lib/Object/Serialize.cpp
index 8905e37..e20c331 100644
--- a/lib/Object/Serialize.cpp
+++ b/lib/Object/Serialize.cpp
@@ -12,7 +12,7 @@ std::ostream &Pothos::Object::serialize(std::ostream &os) const
         Pothos::Archive::OStreamArchiver oa(os);
         oa << *this;
     }
-    catch(const Pothos::ArchiveException &ex)
+    catch(const Pothos::Exception &ex)
     {
         throw ObjectSerializeError("Pothos::Object::serialize("+this->toString()+")", ex.what());
     }
diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index bff0b98..6f54578 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -173,7 +173,17 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
     }
 
     //serialize the reply
-    sendDatagram(os, replyArgs);
+    try
+    {
+        sendDatagram(os, replyArgs);
+    }
+    catch (const Pothos::ObjectSerializeError &ex)
+    {
+        //nothing was sent, the client still needs a reply
+        replyArgs.erase("local");
+        replyArgs["errorMsg"] = Pothos::Object(ex.displayText());
+        sendDatagram(os, replyArgs);
+    }
 
     return done;
 }
-- 
2.43.0


From 62eeccf4398b65be9a512bdb0fe59e995553f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:36 +0000
Subject: [PATCH 37/72] fix: report a failed write of a remote request or reply

---
 lib/Remote/RemoteProxyDatagram.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Remote/RemoteProxyDatagram.cpp b/lib/Remote/RemoteProxyDatagram.cpp
index 00294c5..a881e2d 100644
--- a/lib/Remote/RemoteProxyDatagram.cpp
+++ b/lib/Remote/RemoteProxyDatagram.cpp
@@ -60,6 +60,7 @@ public:
         os.write(_payloadData.data(), _bytesWritten);
         os.write((const char *)&trailer, sizeof(trailer));
         os.flush();
+        if (not os) throw Pothos::IOException("sendDatagram()", "stream error");
     }
 
     void ensureSize(const std::streamsize count)
-- 
2.43.0


From 12e843ae9382cff0cb6ba3fd46c1f846365f2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:36 +0000
Subject: [PATCH 38/72] fix: a request that cannot be serialized leaves the
 remote connection usable

---
 lib/Remote/RemoteProxy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 10bd940..0df8b56 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -32,6 +32,8 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
     {
+        //the connection is still usable when the request could not be serialized
+        if (dynamic_cast<const Pothos::ObjectSerializeError *>(&ex) != nullptr) throw;
         connectionActive = false;
         throw Pothos::IOException("RemoteProxyEnvironment::sendDatagram()", ex.message());
     }
-- 
2.43.0


From 3c8af39caec095e27f79e5b4d9bead149d6b20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:36 +0000
Subject: [PATCH 39/72] fix: wake all waiting remote callers when the
 connection fails

---
 lib/Remote/RemoteProxy.cpp | 13 +++++++++++--
 lib/Remote/RemoteProxy.hpp |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 0df8b56..50964a7 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -54,6 +54,12 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
             return reply;
         }
 
+        //the connection failed in another thread, no more replies will arrive
+        if (not connectionActive)
+        {
+            throw Pothos::IOException("RemoteProxyEnvironment::transact()", "connection inactive");
+        }
+
         //a thread is blocking on the input stream wait here
         if (isBlocking)
         {
@@ -66,22 +72,25 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         isBlocking = true;
         lock.unlock();
         Pothos::ObjectKwargs replyArgs;
+        size_t replyTid = 0;
         POTHOS_EXCEPTION_TRY
         {
             replyArgs = recvDatagram(is);
+            replyTid = replyArgs.at("tid");
         }
         POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
         {
+            lock.lock();
             isBlocking = false;
-            isCond.notify_all();
             connectionActive = false;
+            lock.unlock();
+            isCond.notify_all();
             throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());
         }
         lock.lock();
         isBlocking = false;
 
         //this is our thread ID, reply args
-        const size_t replyTid(replyArgs.at("tid"));
         if (replyTid == tid)
         {
             lock.unlock();
diff --git a/lib/Remote/RemoteProxy.hpp b/lib/Remote/RemoteProxy.hpp
index b9842c1..04f70a4 100644
--- a/lib/Remote/RemoteProxy.hpp
+++ b/lib/Remote/RemoteProxy.hpp
@@ -5,6 +5,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Pothos/Object/Containers.hpp>
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 
@@ -72,7 +73,7 @@ public:
     std::istream &is;
     std::ostream &os;
     const std::string name;
-    bool connectionActive;
+    std::atomic<bool> connectionActive;
 
     std::mutex osMutex;
     std::mutex isMutex;
-- 
2.43.0


From 898982845d44e9d673eb28d8e53d22cab87b2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 40/72] fix: converted buffers cover exactly the converted
 elements

---
 lib/Framework/BufferConvert.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/Framework/BufferConvert.cpp b/lib/Framework/BufferConvert.cpp
index 64ac6f8..fcef216 100644
--- a/lib/Framework/BufferConvert.cpp
+++ b/lib/Framework/BufferConvert.cpp
@@ -117,7 +117,7 @@ Pothos::BufferChunk Pothos::BufferChunk::convert(const DType &outDType, const si
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outBytes = primElems*outDType.elemSize();
 
     //same dtype or integers of same type (ignore signedness)
     if (outDType.elemType() == this->dtype.elemType() or (
@@ -128,14 +128,15 @@ Pothos::BufferChunk Pothos::BufferChunk::convert(const DType &outDType, const si
     {
         auto out = *this;
         out.dtype = outDType;
-        out.length = outDType.size()*outElems;
+        out.length = outBytes;
         return out;
     }
 
     auto it = getBufferConvertImpl().convertMap.find(dtypeIOToHash(this->dtype, outDType));
     if (it == getBufferConvertImpl().convertMap.end()) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convert("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
-    Pothos::BufferChunk out(outDType, outElems);
+    Pothos::BufferChunk out(outBytes);
+    out.dtype = outDType;
 
     it->second(this->as<const void *>(), out.as<void *>(), primElems);
     return out;
@@ -145,13 +146,15 @@ std::pair<Pothos::BufferChunk, Pothos::BufferChunk> Pothos::BufferChunk::convert
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outBytes = primElems*outDType.elemSize();
 
     auto it = getBufferConvertImpl().convertComplexMap.find(dtypeIOToHash(this->dtype, outDType));
     if (it == getBufferConvertImpl().convertComplexMap.end()) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
-    Pothos::BufferChunk outRe(outDType, outElems);
-    Pothos::BufferChunk outIm(outDType, outElems);
+    Pothos::BufferChunk outRe(outBytes);
+    Pothos::BufferChunk outIm(outBytes);
+    outRe.dtype = outDType;
+    outIm.dtype = outDType;
 
     it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), primElems);
     return std::make_pair(outRe, outIm);
@@ -161,9 +164,9 @@ size_t Pothos::BufferChunk::convert(const BufferChunk &out, const size_t numElem
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*out.dtype.size()/out.dtype.elemSize();
+    const auto outBytes = primElems*out.dtype.elemSize();
 
-    if (out.elements() < outElems) throw Pothos::BufferConvertError(
+    if (out.length < outBytes) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convert(buffer)", "insufficient input buffer");
 
     auto it = getBufferConvertImpl().convertMap.find(dtypeIOToHash(this->dtype, out.dtype));
@@ -171,20 +174,20 @@ size_t Pothos::BufferChunk::convert(const BufferChunk &out, const size_t numElem
         "Pothos::BufferChunk::convert("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
 
     it->second(this->as<const void *>(), out.as<void *>(), primElems);
-    return outElems;
+    return (out.dtype.dimension() == 0)?0:(primElems/out.dtype.dimension());
 }
 
 size_t Pothos::BufferChunk::convertComplex(const BufferChunk &outRe, const BufferChunk &outIm, const size_t numElems_) const
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outRe.dtype.size()/outRe.dtype.elemSize();
+    const auto outBytes = primElems*outRe.dtype.elemSize();
 
     if (not (outRe.dtype == outIm.dtype)) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex(bufferRe, bufferIm)", "buffer DType mismatch");
-    if (outRe.elements() < outElems) throw Pothos::BufferConvertError(
+    if (outRe.length < outBytes) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex(bufferRe, bufferIm)", "insufficient input bufferRe");
-    if (outIm.elements() < outElems) throw Pothos::BufferConvertError(
+    if (outIm.length < outBytes) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex(bufferRe, bufferIm)", "insufficient input bufferIm");
 
     auto it = getBufferConvertImpl().convertComplexMap.find(dtypeIOToHash(this->dtype, outRe.dtype));
@@ -192,5 +195,5 @@ size_t Pothos::BufferChunk::convertComplex(const BufferChunk &outRe, const Buffe
         "Pothos::BufferChunk::convertComplex("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
 
     it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), primElems);
-    return outElems;
+    return (outRe.dtype.dimension() == 0)?0:(primElems/outRe.dtype.dimension());
 }
-- 
2.43.0


From 7eefce5288dc71cf45e7c2b42b65e649e0c5b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 41/72] fix: reject a malformed dimension in data type markup

---
 lib/Framework/DType.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Framework/DType.cpp b/lib/Framework/DType.cpp
index 503eec9..f62eec5 100644
--- a/lib/Framework/DType.cpp
+++ b/lib/Framework/DType.cpp
@@ -182,6 +182,11 @@ static ElementTypes parseMarkupName(const std::string &markup, size_t &dimension
     const auto alias = Poco::trim(markup.substr(0, commaPos));
     const auto dimStr = Poco::trim(markup.substr(commaPos+1));
 
+    if (dimStr.find_first_not_of("0123456789") != std::string::npos)
+    {
+        throw Pothos::DTypeUnknownError("Pothos::DType("+markup+")", "can't parse markup: invalid dimension");
+    }
+
     try
     {
         dimension = size_t(std::stoull(dimStr));
-- 
2.43.0


From 602538420575e167c4ab2336a61b39d762a2a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 42/72] fix: alias of an address at the start of the circular
 alias

---
 include/Pothos/Framework/BufferChunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index a11935d..3b48b51 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -410,7 +410,7 @@ inline size_t Pothos::BufferChunk::getAlias(void) const
 {
     const auto &buffer = getBuffer();
     if (buffer.getAlias() == 0) return 0;
-    if (address > buffer.getAlias()) return address - buffer.getAliasOffset();
+    if (address >= buffer.getAlias()) return address - buffer.getAliasOffset();
     else return address + buffer.getAliasOffset();
 }
 
-- 
2.43.0


From 405cf058870ec4ae1a7dea537c42b3276023cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 43/72] fix: append to an empty chunk copies every byte of a
 wrapped buffer

---
 lib/Framework/BufferChunk.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/BufferChunk.cpp b/lib/Framework/BufferChunk.cpp
index 94553c4..4144a44 100644
--- a/lib/Framework/BufferChunk.cpp
+++ b/lib/Framework/BufferChunk.cpp
@@ -30,7 +30,8 @@ void Pothos::BufferChunk::append(const BufferChunk &other)
         }
 
         //otherwise make a new buffer and copy in the contents
-        *this = Pothos::BufferChunk(other.dtype, other.elements());
+        *this = Pothos::BufferChunk(other.length);
+        this->dtype = other.dtype;
         std::memcpy((void *)this->address, (const void *)other.address, this->length);
     }
     //otherwise allocate and copy two buffers together
-- 
2.43.0


From 26a64d2720d5c877dc5ce446c05cc6b7fe7a3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 44/72] fix: write-only file mapping, and no descriptor leak
 when mapping fails

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index 306c11e..5b69015 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -48,9 +48,8 @@ public:
          bool writable): _buffer(nullptr), _length(0)
     {
         int openFlags = 0;
-        if(readable && writable) openFlags = O_RDWR;
+        if(writable)             openFlags = O_RDWR; //a shared writable mapping needs read access as well
         else if(readable)        openFlags = O_RDONLY;
-        else if(writable)        openFlags = O_WRONLY;
 
         int mmapProt = 0;
         if(readable) mmapProt |= PROT_READ;
@@ -67,7 +66,9 @@ public:
         _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
         if(!_buffer || (MAP_FAILED == _buffer))
         {
-            throw Pothos::IOException("mmap", ::strerror(errno));
+            const int mmapErrno = errno;
+            ::close(fd);
+            throw Pothos::IOException("mmap", ::strerror(mmapErrno));
         }
 
         throwErrnoOnFailure<Pothos::FileException>(::close(fd));
-- 
2.43.0


From 1e0e4734cd02d98851d3b7a00b192cc28433795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 45/72] fix: accumulated work times start from zero

---
 lib/Framework/WorkerActor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/WorkerActor.hpp b/lib/Framework/WorkerActor.hpp
index 6d86228..c21b3d9 100644
--- a/lib/Framework/WorkerActor.hpp
+++ b/lib/Framework/WorkerActor.hpp
@@ -22,7 +22,11 @@ public:
         activeState(false),
         activityIndicator(0),
         numTaskCalls(0),
-        numWorkCalls(0)
+        numWorkCalls(0),
+        totalTimeTask(0),
+        totalTimeWork(0),
+        totalTimePreWork(0),
+        totalTimePostWork(0)
     {
         return;
     }
-- 
2.43.0


From 2f1dbe726651aed6d5d0e517eba60179649f9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 46/72] fix: popMessage does not count a message that was not
 there

---
 include/Pothos/Framework/InputPortImpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Framework/InputPortImpl.hpp b/include/Pothos/Framework/InputPortImpl.hpp
index f052467..846c30a 100644
--- a/include/Pothos/Framework/InputPortImpl.hpp
+++ b/include/Pothos/Framework/InputPortImpl.hpp
@@ -90,6 +90,7 @@ inline bool Pothos::InputPort::isSlot(void) const
 
 inline Pothos::Object Pothos::InputPort::popMessage(void)
 {
+    if (this->asyncMessagesEmpty()) return Pothos::Object();
     auto msg = this->asyncMessagesPop();
     _totalMessages++;
     _workEvents++;
-- 
2.43.0


From 32a9fb37acb72cf008eb00306720cf1354e30836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 47/72] fix: work info forgets automatically deleted ports

---
 lib/Framework/WorkerActorPortAllocation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index c47203c..c7db435 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -165,6 +165,9 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
     //remove from ports itself
     ports.erase(it);
+
+    //resizes work info indexable pointers
+    this->updatePorts();
 }
 
 void Pothos::WorkerActor::autoDeleteInput(const std::string &name)
-- 
2.43.0


From 7da49e8e8a89c002f3999e9d36e4b79b6df3aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:54 +0000
Subject: [PATCH 48/72] fix: port names that are too large for an index

---
 lib/Framework/WorkerActorPortAllocation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index c7db435..171c281 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -5,6 +5,7 @@
 #include <cassert>
 #include <algorithm> //min/max
 #include <cctype> //isdigit
+#include <stdexcept>
 
 /***********************************************************************
  * misc helper methods
@@ -12,13 +13,15 @@
 static int portNameToIndex(const std::string &name)
 {
     //check if all characters are digits or return -1
+    if (name.empty()) return -1;
     for (const auto &ch : name)
     {
-        if (not std::isdigit(ch)) return -1;
+        if (not std::isdigit((unsigned char)ch)) return -1;
     }
 
-    //convert the string to an integer
-    return std::stoi(name);
+    //convert the string to an integer or return -1 when its too large for an index
+    try {return std::stoi(name);}
+    catch (const std::out_of_range &) {return -1;}
 }
 
 /***********************************************************************
-- 
2.43.0


From 800881bb92aa55e32bc4df3cc25937f6f1e0bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 49/72] fix: boundary port aliases survive further connections

---
 lib/Framework/Topology.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index c804261..f815709 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -177,6 +177,8 @@ void Pothos::Topology::_connect(
     //store port info for connections to the hierarchy
     if (not flow.src.obj and flow.dst.obj)
     {
+        const auto &names = _impl->inputPortNames;
+        const bool isNew = std::find(names.begin(), names.end(), srcName) == names.end();
         _impl->inputPortNames.push_back(srcName);
         for (const auto &info : getConnectable(dst).call<std::vector<PortInfo>>("inputPortInfo"))
         {
@@ -184,7 +186,7 @@ void Pothos::Topology::_connect(
             {
                 auto &newInfo = _impl->inputPortInfo[srcName];
                 newInfo.name = srcName;
-                newInfo.alias = srcName;
+                if (isNew) newInfo.alias = srcName; //keep the alias of a port with other flows
                 newInfo.isSigSlot = info.isSigSlot;
                 newInfo.dtype = info.dtype;
             }
@@ -192,6 +194,8 @@ void Pothos::Topology::_connect(
     }
     if (not flow.dst.obj and flow.src.obj)
     {
+        const auto &names = _impl->outputPortNames;
+        const bool isNew = std::find(names.begin(), names.end(), dstName) == names.end();
         _impl->outputPortNames.push_back(dstName);
         for (const auto &info : getConnectable(src).call<std::vector<PortInfo>>("outputPortInfo"))
         {
@@ -199,7 +203,7 @@ void Pothos::Topology::_connect(
             {
                 auto &newInfo = _impl->outputPortInfo[dstName];
                 newInfo.name = dstName;
-                newInfo.alias = dstName;
+                if (isNew) newInfo.alias = dstName; //keep the alias of a port with other flows
                 newInfo.isSigSlot = info.isSigSlot;
                 newInfo.dtype = info.dtype;
             }
@@ -207,10 +211,14 @@ void Pothos::Topology::_connect(
     }
     if (not flow.src.obj and not flow.dst.obj)
     {
-        _impl->inputPortNames.push_back(srcName);
+        auto &inputNames = _impl->inputPortNames;
+        if (std::find(inputNames.begin(), inputNames.end(), srcName) == inputNames.end()) _impl->inputPortInfo[srcName].alias = srcName;
+        inputNames.push_back(srcName);
         _impl->inputPortInfo[srcName].name = srcName;
 
-        _impl->outputPortNames.push_back(dstName);
+        auto &outputNames = _impl->outputPortNames;
+        if (std::find(outputNames.begin(), outputNames.end(), dstName) == outputNames.end()) _impl->outputPortInfo[dstName].alias = dstName;
+        outputNames.push_back(dstName);
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-- 
2.43.0


From 7e9244de214bf57336e0784a20d743a8ae309e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:36 +0000
Subject: [PATCH 50/72] fix: an exception thrown by prepare() does not end the
 process

---
 lib/Framework/WorkerActor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index f166d78..f23f0de 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -218,7 +218,15 @@ void Pothos::WorkerActor::setActiveStateOff(void)
 void Pothos::WorkerActor::workTask(void)
 {
     if (not activeState) return;
-    if (not block->prepare()) return;
+    POTHOS_EXCEPTION_TRY
+    {
+        if (not block->prepare()) return;
+    }
+    POTHOS_EXCEPTION_CATCH(const Exception &ex)
+    {
+        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", block->getName(), ex.displayText());
+        return;
+    }
     this->numTaskCalls++;
     TimeAccumulator taskTime(this->totalTimeTask);
 
-- 
2.43.0


From 942ca867b0b853541890fc5ad7f7e8aceca4d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:16 +0000
Subject: [PATCH 51/72] fix: an empty calls entry in a JSON topology is refused

---
 lib/Framework/TopologyMakeJSON.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Framework/TopologyMakeJSON.cpp b/lib/Framework/TopologyMakeJSON.cpp
index 751082a..b7953f3 100644
--- a/lib/Framework/TopologyMakeJSON.cpp
+++ b/lib/Framework/TopologyMakeJSON.cpp
@@ -134,6 +134,8 @@ static Pothos::Proxy makeBlock(
     const auto &callsArray = blockObj.value("calls", json::array());
     for (const auto &callArray : callsArray)
     {
+        if (not callArray.is_array() or callArray.empty()) throw Pothos::DataFormatException(
+            "Pothos::Topology::make()", "blocks["+id+"] calls entry must be a non-empty array");
         auto name = callArray[0].get<std::string>();
         const auto callArgs = evalArgsArray(evaluator, callArray, 1/*offset*/);
         try
-- 
2.43.0


From 1d64aec838f08552f32000b3139c09366ac4f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:16 +0000
Subject: [PATCH 52/72] fix: a JSON topology without globals can be registered
 as a block

---
 lib/ConfLoader/JSONTopologyLoader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/ConfLoader/JSONTopologyLoader.cpp b/lib/ConfLoader/JSONTopologyLoader.cpp
index 65ee8ff..fd67d79 100644
--- a/lib/ConfLoader/JSONTopologyLoader.cpp
+++ b/lib/ConfLoader/JSONTopologyLoader.cpp
@@ -32,14 +32,15 @@ static Pothos::Object opaqueJSONTopologyFactory(
     }
 
     //apply the global variable overlays
-    auto &globalsArray = topObj["globals"];
-    if (numArgs > globalsArray.size())
+    const size_t numGlobals = (topObj.count("globals") == 0)?0:topObj["globals"].size();
+    if (numArgs > numGlobals)
     {
         throw Pothos::InvalidArgumentException("too many args passed to factory");
     }
 
     for (size_t i = 0; i < numArgs; i++)
     {
+        auto &globalsArray = topObj["globals"];
         if (not globalsArray[i].is_object())
         {
             throw Pothos::DataFormatException("global entry not a JSON object");
-- 
2.43.0


From b0e71224d8a2a90e1c0b9e79f2907661813dc357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:28 +0000
Subject: [PATCH 53/72] fix: floating point arguments of a JSON topology block
 keep their value

---
 lib/ConfLoader/JSONTopologyLoader.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/ConfLoader/JSONTopologyLoader.cpp b/lib/ConfLoader/JSONTopologyLoader.cpp
index fd67d79..a126317 100644
--- a/lib/ConfLoader/JSONTopologyLoader.cpp
+++ b/lib/ConfLoader/JSONTopologyLoader.cpp
@@ -7,6 +7,7 @@
 #include <Poco/File.h>
 #include <fstream>
 #include <map>
+#include <cmath>
 #include <json.hpp>
 
 using json = nlohmann::json;
@@ -45,7 +46,14 @@ static Pothos::Object opaqueJSONTopologyFactory(
         {
             throw Pothos::DataFormatException("global entry not a JSON object");
         }
-        globalsArray[i]["value"] = args[i].toString();
+        //the string form of a floating point number is truncated to 6 decimals
+        auto &value = globalsArray[i]["value"];
+        value = args[i].toString();
+        if (args[i].type() == typeid(double) or args[i].type() == typeid(float))
+        {
+            const auto number = args[i].convert<double>();
+            if (std::isfinite(number)) value = number;
+        }
     }
 
     //create the topology from the JSON string
-- 
2.43.0


From 735702d6ff98a05aea5be16a73d7d0dcdf2bda71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 54/72] fix: a one line comment does not swallow the code that
 follows

---
 lib/Util/BlockDescription.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index 0aca274..9df0c5b 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -179,8 +179,11 @@ static std::vector<CodeBlock> extractContiguousBlocks(std::istream &is)
         }
         else if (not inMultiLineComment and openMulti != std::string::npos)
         {
-            inMultiLineComment = true;
-            currentCodeBlock.push_back(CodeLine(line.substr(openMulti, std::string::npos), lineNo));
+            //the comment may be closed on the same line
+            const auto closeSame = line.find("*/", openMulti+2);
+            inMultiLineComment = closeSame == std::string::npos;
+            if (not inMultiLineComment) partial = line.substr(closeSame+2);
+            currentCodeBlock.push_back(CodeLine(line.substr(openMulti, closeSame-openMulti), lineNo));
         }
         else if (inMultiLineComment and closeMulti != std::string::npos)
         {
-- 
2.43.0


From f5e3c0015162cafd8177bf531f4f43fa5b27c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 55/72] fix: argument lists with quoted text, blanks or an open
 bracket

---
 lib/Util/BlockDescription.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index 9df0c5b..cbd0eb7 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -66,8 +66,17 @@ static std::vector<std::string> splitCommaArgs(const std::string &argsStr)
 {
     std::vector<std::string> args(1);
     int bracketDepth = 0;
+    bool inQuotes = false, escaped = false;
     for (char ch : argsStr)
     {
+        //brackets and commas inside of quoted strings are text
+        if (inQuotes or ch == '"')
+        {
+            args.back().push_back(ch);
+            if (ch == '"' and not escaped) inQuotes = not inQuotes;
+            escaped = ch == '\\' and not escaped;
+            continue;
+        }
         if (ch == '{' or ch == '[' or ch == '(') bracketDepth++;
         else if (ch == '}' or ch == ']' or ch == ')') bracketDepth--;
         if (ch == ',' and bracketDepth == 0) args.push_back("");
@@ -75,8 +84,10 @@ static std::vector<std::string> splitCommaArgs(const std::string &argsStr)
         if (bracketDepth < 0) throw Pothos::SyntaxException(
             "bracket mismatch for comma-separated args", argsStr);
     }
-    if (args.back().empty()) args.resize(args.size()-1);
+    if (bracketDepth != 0) throw Pothos::SyntaxException(
+        "bracket mismatch for comma-separated args", argsStr);
     for (auto &arg : args) arg = Poco::trim(arg);
+    if (args.back().empty()) args.resize(args.size()-1);
     return args;
 }
 
-- 
2.43.0


From 4ebcffd9c421e49210287f50bd9be5a4f4871bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 56/72] fix: the JSON array of no descriptions is an empty
 array

---
 lib/Util/BlockDescription.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index cbd0eb7..85a02b1 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -518,7 +518,7 @@ static json parseCommentBlockForMarkup(const CodeBlock &commentBlock)
 struct Pothos::Util::BlockDescriptionParser::Impl
 {
     std::map<std::string, json> objects;
-    json array;
+    json array = json::array();
     std::vector<std::string> factories;
 };
 
-- 
2.43.0


From e5facd7053a476bea612e86a604985ebac92fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 57/72] fix: generated registrations of documentation with
 non-ASCII text

---
 apps/PothosUtilDocParse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/PothosUtilDocParse.cpp b/apps/PothosUtilDocParse.cpp
index 88aa271..ba187a2 100644
--- a/apps/PothosUtilDocParse.cpp
+++ b/apps/PothosUtilDocParse.cpp
@@ -26,7 +26,7 @@ static void jsonArrayToCppStaticBlock(const Pothos::Util::BlockDescriptionParser
         std::string escaped;
         for (const auto &ch : parser.getJSONObject(factory))
         {
-            escaped += "\\x" + Poco::NumberFormatter::formatHex(int(ch), 2/*width*/, false/*no 0x*/);
+            escaped += "\\x" + Poco::NumberFormatter::formatHex(int((unsigned char)(ch)), 2/*width*/, false/*no 0x*/);
         }
 
         //register the block description at the specified path
-- 
2.43.0


From 2182c7eef7abb0809a58e82afb164096119c1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 58/72] fix: a block description without a path is refused

---
 lib/ConfLoader/BlockDescLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ConfLoader/BlockDescLoader.cpp b/lib/ConfLoader/BlockDescLoader.cpp
index de4c741..75e4be4 100644
--- a/lib/ConfLoader/BlockDescLoader.cpp
+++ b/lib/ConfLoader/BlockDescLoader.cpp
@@ -28,7 +28,7 @@ static std::vector<Pothos::PluginPath> blockDescParser(std::istream &is, std::ve
         const std::string JsonObjStr(obj.dump());
 
         std::vector<std::string> paths;
-        paths.push_back(obj["path"]);
+        paths.push_back(obj.at("path"));
         for (const auto &alias : obj.value("aliases", json::array()))
         {
             paths.push_back(alias);
-- 
2.43.0


From 41122c1798980f3a932617cd1f20eb349eda178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 59/72] fix: a call through an evaluator that has no block

---
 lib/Util/Builtin/BlockEval.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Util/Builtin/BlockEval.cpp b/lib/Util/Builtin/BlockEval.cpp
index 04d4771..7615372 100644
--- a/lib/Util/Builtin/BlockEval.cpp
+++ b/lib/Util/Builtin/BlockEval.cpp
@@ -69,6 +69,8 @@ void ProxyBlockEval::_handleCall(const json &callObj)
         const auto obj = this->lookupOrEvalAsType(arg);
         callArgs.push_back(env->convertObjectToProxy(obj));
     }
+    if (not _proxyBlock) throw Pothos::Exception(
+        "ProxyBlockEval call("+callName+")", "block not created");
     try
     {
         _proxyBlock.getHandle()->call(callName, callArgs.data(), callArgs.size());
-- 
2.43.0


From 631ded379f41aff725ee3b6556dec190a12aacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 60/72] fix: repeated init without modules loads conf files
 once

---
 lib/Init.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Init.cpp b/lib/Init.cpp
index a8f979a..8ade071 100644
--- a/lib/Init.cpp
+++ b/lib/Init.cpp
@@ -26,6 +26,7 @@ namespace Pothos {
         void unload(void);
 
     private:
+        bool loaded = false;
         std::vector<Pothos::PluginModule> modules;
         std::vector<Pothos::PluginPath> confLoadedPaths;
     };
@@ -40,8 +41,9 @@ Pothos::InitSingleton &Pothos::InitSingleton::instance(void)
 
 void Pothos::InitSingleton::load(void)
 {
-    if (not modules.empty()) return;
+    if (loaded) return;
     modules = PluginLoader::loadModules();
+    loaded = true;
     confLoadedPaths = Pothos_ConfLoader_loadConfFiles();
 }
 
@@ -53,6 +55,7 @@ void Pothos::InitSingleton::unload(void)
     }
     confLoadedPaths.clear();
     modules.clear();
+    loaded = false;
 }
 
 /***********************************************************************
-- 
2.43.0


From f3aa508c04d9ff7812b949ac74f90b8dd0ec51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:05 +0000
Subject: [PATCH 61/72] fix: conf files with dotted keys or unresolvable
 references

---
 lib/ConfLoader/ConfLoader.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/ConfLoader/ConfLoader.cpp b/lib/ConfLoader/ConfLoader.cpp
index 6f55d15..8645051 100644
--- a/lib/ConfLoader/ConfLoader.cpp
+++ b/lib/ConfLoader/ConfLoader.cpp
@@ -22,6 +22,23 @@ static Poco::Logger &confLoaderLogger(void)
 
 std::string Pothos_FileRealPath(const std::string &path);
 
+/***********************************************************************
+ * Copy all properties, keys can have multiple parts separated by dots
+ **********************************************************************/
+static void loadConfKeys(
+    const Poco::Util::AbstractConfiguration &conf,
+    const std::string &parent,
+    std::map<std::string, std::string> &configMap)
+{
+    Poco::Util::AbstractConfiguration::Keys keys; conf.keys(parent, keys);
+    for (const auto &name : keys)
+    {
+        const auto key = parent.empty()?name:(parent+"."+name);
+        if (conf.hasProperty(key)) configMap[key] = conf.getString(key);
+        loadConfKeys(conf, key, configMap);
+    }
+}
+
 /***********************************************************************
  * Load a config file by iterating through sections and running action
  **********************************************************************/
@@ -30,21 +47,19 @@ static std::vector<Pothos::PluginPath> loadConfFile(const std::string &path)
     poco_debug_f1(confLoaderLogger(), "loading %s", path);
 
     //parse the configuration file with the INI parser
+    //and store the config into a map structure
     Poco::AutoPtr<Poco::Util::PropertyFileConfiguration> conf;
+    std::map<std::string, std::string> configMap;
     try
     {
         conf = new Poco::Util::PropertyFileConfiguration(path);
+        loadConfKeys(*conf, "", configMap);
     }
     catch (const Poco::Exception &ex)
     {
         throw Pothos::Exception("ConfLoader("+path+")", ex.displayText());
     }
 
-    //store then config into a map structure
-    std::map<std::string, std::string> configMap;
-    Poco::Util::AbstractConfiguration::Keys keys; conf->keys(keys);
-    for (const auto &key : keys) configMap[key] = conf->getString(key);
-
     //and other config file parameters
     configMap["confFilePath"] = path;
 
-- 
2.43.0


From c24c955c2be05906c7698af7d607f804893e2567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:05 +0000
Subject: [PATCH 62/72] fix: very long comment lines do not overflow the stack

---
 lib/Util/BlockDescription.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index 85a02b1..40f12d5 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -279,7 +279,7 @@ static json parseCommentBlockForMarkup(const CodeBlock &commentBlock)
             else line = "";
 
             static const std::regex e("^\\|(\\w+)\\s+(.*\\S)\\s*$");
-            if (std::regex_match(line, matches, e))
+            if (not line.empty() and line.front() == '|' and std::regex_match(line, matches, e))
             {
                 assert(matches.size() == 3 && trimCheck(matches));
                 instruction = matches[1];
@@ -290,6 +290,8 @@ static json parseCommentBlockForMarkup(const CodeBlock &commentBlock)
         if (state.empty())
         {
             static const std::regex e("^(.*)\\|PothosDoc\\s+(.*\\S)\\s*$");
+            //the recursive regex match runs out of stack for very long lines
+            if (line.find("|PothosDoc") == std::string::npos) continue;
             if (not std::regex_match(line, matches, e)) continue;
             assert(matches.size() == 3 and trimCheck(matches, 2));
             indent = matches[1];
-- 
2.43.0


From 93de53274414480d69428e4e2d32def121dc573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 63/72] fix: factory arguments with parentheses

---
 lib/Util/BlockDescription.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index 40f12d5..935a53a 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -440,7 +440,7 @@ static json parseCommentBlockForMarkup(const CodeBlock &commentBlock)
         else if (instruction == "factory" and (state == "DOC" or state == "PARAM"))
         {
             std::smatch fields;
-            static const std::regex e("^\\s*(/.*)\\s*\\((.*)\\)$");
+            static const std::regex e("^\\s*(/[^\\s\\(]*)\\s*\\((.*)\\)$");
             if (not std::regex_match(payload, fields, e)) throw Pothos::SyntaxException(
                 "Expected |factory /registry/path(args...)",
                 codeLine.toString());
-- 
2.43.0


From a1862a7adc5ac08dc2e00de06721a2e2e545ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 64/72] fix: first failure flags of the thread configuration
 are atomic

---
 lib/Framework/ThreadEnvironment.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/Framework/ThreadEnvironment.cpp b/lib/Framework/ThreadEnvironment.cpp
index 8c6bea9..ff696f8 100644
--- a/lib/Framework/ThreadEnvironment.cpp
+++ b/lib/Framework/ThreadEnvironment.cpp
@@ -222,10 +222,9 @@ void ThreadEnvironment::applyThreadConfig(void)
     //set priority -- log message only on first failure
     {
         const auto errorMsg = ThreadEnvironment::setPriority(_args.priority);
-        static bool showErrorMsg = true;
-        if (not errorMsg.empty() and showErrorMsg)
+        static std::atomic<bool> showErrorMsg(true);
+        if (not errorMsg.empty() and showErrorMsg.exchange(false))
         {
-            showErrorMsg = false;
             poco_error_f1(Poco::Logger::get("Pothos.ThreadPool"), "Failed to set thread priority %s", errorMsg);
         }
     }
@@ -234,10 +233,9 @@ void ThreadEnvironment::applyThreadConfig(void)
     if (_args.affinityMode == "CPU")
     {
         const auto errorMsg = ThreadEnvironment::setCPUAffinity(_args.affinity);
-        static bool showErrorMsg = true;
-        if (not errorMsg.empty() and showErrorMsg)
+        static std::atomic<bool> showErrorMsg(true);
+        if (not errorMsg.empty() and showErrorMsg.exchange(false))
         {
-            showErrorMsg = false;
             poco_error_f1(Poco::Logger::get("Pothos.ThreadPool"), "Failed to set CPU affinity %s", errorMsg);
         }
     }
@@ -246,10 +244,9 @@ void ThreadEnvironment::applyThreadConfig(void)
     if (_args.affinityMode == "NUMA")
     {
         const auto errorMsg = ThreadEnvironment::setNodeAffinity(_args.affinity);
-        static bool showErrorMsg = true;
-        if (not errorMsg.empty() and showErrorMsg)
+        static std::atomic<bool> showErrorMsg(true);
+        if (not errorMsg.empty() and showErrorMsg.exchange(false))
         {
-            showErrorMsg = false;
             poco_error_f1(Poco::Logger::get("Pothos.ThreadPool"), "Failed to set NUMA affinity %s", errorMsg);
         }
     }
-- 
2.43.0


From d40d9f7261c14d1caa0c6a9e5ee5fef83ef8ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:11 +0000
Subject: [PATCH 65/72] fix: amalgamated fronts stay within the circular
 mapping

---
 lib/Framework/BufferAccumulator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 30adc66..24d9353 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -70,7 +70,13 @@ void Pothos::BufferAccumulator::push(BufferChunk &&buffer)
         assert(f);
         const size_t fEnd = f.getEnd();
 
-        if (b.address == fEnd or b.getAlias() == fEnd)
+        //An alias only continues the front within the same circular buffer,
+        //and only as far as the second mapping reaches.
+        const bool aliased = b.getAlias() == fEnd and
+            b.getBuffer() == f.getBuffer() and
+            fEnd + b.length <= f.getBuffer().getAlias();
+
+        if (b.address == fEnd or aliased)
         {
             f.length += b.length;
             b.address += b.length;
-- 
2.43.0


From 2855896c2c1c471c141dca9f0df6504e523eb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 66/72] fix: logical operators without a left operand are
 refused

---
 lib/Util/EvalEnvironment.cpp | 58 ++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index e781f9e..dc46dbd 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -17,6 +17,7 @@
 #include <Pothos/Object/Containers.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Poco/String.h>
+#include <cctype>
 #include <cmath>
 #include <string>
 #include <vector>
@@ -126,6 +127,62 @@ static mup::Value objectToMupValue(const Pothos::Object &obj)
     throw Pothos::Exception("EvalEnvironment::objectToMupValue()", "unknown type " + obj.getTypeString());
 }
 
+/***********************************************************************
+ * check the operands of the logical operators
+ * The parser library does not check that its short-circuit operators
+ * have a left operand, and evaluates text such as "a and and b" out of bounds.
+ **********************************************************************/
+static void checkLogicalOperators(const std::string &expr)
+{
+    static const std::string logicalOperators[] = {"&&", "||", "and", "or"};
+    bool operandNeeded = true;
+    bool numeric = false;
+    for (size_t i = 0; i < expr.size();)
+    {
+        const unsigned char ch = expr[i];
+        if (std::isspace(ch)) {numeric = false; i++; continue;}
+
+        size_t opSize = 0;
+        for (const auto &op : logicalOperators)
+        {
+            if (expr.compare(i, op.size(), op) == 0) opSize = op.size();
+        }
+        if (opSize != 0)
+        {
+            if (operandNeeded) throw Pothos::Exception(
+                "EvalEnvironment::eval("+expr+")", "missing operand before " + expr.substr(i, opSize));
+            operandNeeded = true;
+            i += opSize;
+        }
+        else if (ch == '"')
+        {
+            for (i++; i < expr.size() and expr[i] != '"'; i++)
+            {
+                if (expr[i] == '\\') i++;
+            }
+            operandNeeded = false;
+            i++;
+        }
+        else if (std::isalnum(ch) or ch == '_')
+        {
+            //names extend as far as possible, but operators may directly follow numbers and booleans
+            if (std::isdigit(ch)) numeric = true;
+            else if (expr.compare(i, 4, "true") == 0) i += 3;
+            else if (expr.compare(i, 5, "false") == 0) i += 4;
+            else if (not numeric) while (i+1 < expr.size() and (std::isalnum((unsigned char)(expr[i+1])) or expr[i+1] == '_')) i++;
+            operandNeeded = false;
+            i++;
+            continue;
+        }
+        else
+        {
+            operandNeeded = std::string("([{,?:+-*/^=<>!&|").find(char(ch)) != std::string::npos;
+            i++;
+        }
+        numeric = false;
+    }
+}
+
 /***********************************************************************
  * Evaluator implementation
  **********************************************************************/
@@ -255,6 +312,7 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression
     if (inBraces) return this->_evalMap(expr);
 
     //use the muparser
+    checkLogicalOperators(expr);
     try
     {
         std::lock_guard<std::recursive_mutex> lock(_impl->parserMutex);
-- 
2.43.0


From 7194baabddccad2c86133ea73ee466f6b89bb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:45 +0000
Subject: [PATCH 67/72] fix: keep converted arguments alive during a remote
 call

---
 lib/Remote/RemoteProxyHandle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxyHandle.cpp b/lib/Remote/RemoteProxyHandle.cpp
index f53c0ad..5ccd533 100644
--- a/lib/Remote/RemoteProxyHandle.cpp
+++ b/lib/Remote/RemoteProxyHandle.cpp
@@ -5,6 +5,7 @@
 #include <Poco/Format.h>
 #include <Poco/Logger.h>
 #include <iostream>
+#include <vector>
 
 RemoteProxyHandle::RemoteProxyHandle(std::shared_ptr<RemoteProxyEnvironment> env, const size_t remoteID):
     env(env), remoteID(remoteID)
@@ -37,9 +38,13 @@ Pothos::Proxy RemoteProxyHandle::call(const std::string &name, const Pothos::Pro
     req["action"] = Pothos::Object("call");
     req["handleID"] = Pothos::Object(this->remoteID);
     req["name"] = Pothos::Object(name);
+
+    //an argument from another environment is converted to a new handle,
+    //which must remain on the server until the call has been made
+    std::vector<std::shared_ptr<RemoteProxyHandle>> handles(numArgs);
     for (size_t i = 0; i < numArgs; i++)
     {
-        std::shared_ptr<RemoteProxyHandle> handle;
+        auto &handle = handles[i];
         try
         {
             handle = env->getHandle(args[i]);
-- 
2.43.0


From 6a4d0f3ece6df7e50eb73a1cc66801b2710d23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 68/72] fix: buffers are not allocated on the word of a corrupt
 length

---
 lib/Framework/BufferChunk.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/Framework/BufferChunk.cpp b/lib/Framework/BufferChunk.cpp
index 4144a44..51f2a21 100644
--- a/lib/Framework/BufferChunk.cpp
+++ b/lib/Framework/BufferChunk.cpp
@@ -123,11 +123,13 @@ void load(Archive & ar, Pothos::BufferChunk &t, const unsigned int)
     bool is_null = false;
     ar >> is_null;
     if (is_null) return;
-    Poco::UInt32 length = 0;
-    ar >> length;
-    t = Pothos::BufferChunk(size_t(length));
-    Pothos::serialization::BinaryObject bo(t.as<void *>(), t.length);
-    ar >> bo;
+
+    //extract length and contents (same format as a string):
+    //the length is not trustworthy until the contents have been read
+    std::string bytes;
+    ar >> bytes;
+    t = Pothos::BufferChunk(bytes.size());
+    std::memcpy(t.as<void *>(), bytes.data(), bytes.size());
     ar >> t.dtype;
 }
 }}
-- 
2.43.0


From c97db74950d817aeda7d1355efb19a1955ff2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 69/72] fix: a polymorphic pointer is not left dangling when
 its load fails

---
 include/Pothos/Archive/Polymorphic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Polymorphic.hpp b/include/Pothos/Archive/Polymorphic.hpp
index e2680d8..0cfaa82 100644
--- a/include/Pothos/Archive/Polymorphic.hpp
+++ b/include/Pothos/Archive/Polymorphic.hpp
@@ -34,8 +34,9 @@ load(Archive &ar, T* &t, const unsigned int)
     unsigned long long idHash;
     ar >> idHash;
     const auto &entry = Pothos::Archive::ArchiveEntry::find(idHash);
+    const auto loaded = static_cast<T*>(entry.load(ar)); //may throw
     delete t; //delete previous pointer or its null
-    t = static_cast<T*>(entry.load(ar));
+    t = loaded;
 }
 
 template <typename Archive, typename T>
-- 
2.43.0


From a9ac27f4e02cf932c28635d1fb1c19e581dba336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 70/72] fix: plugins belong to the module that is loading in
 the same thread, also after a failed load

---
 lib/Plugin/Module.cpp   | 22 +++++++++++++++++-----
 lib/Plugin/Registry.cpp | 20 ++++++++++++--------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index fdc6554..1106d56 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -45,7 +45,7 @@ struct ErrorMessageDisableGuard
 /***********************************************************************
  * Locking for plugin attach helper
  **********************************************************************/
-void registrySetActiveModuleLoading(const Pothos::PluginModule &module);
+void registrySetActiveModuleLoading(const Pothos::PluginModule *module);
 
 std::vector<std::string> getPluginPaths(const Pothos::PluginModule &module);
 
@@ -58,6 +58,21 @@ static std::mutex &getModuleMutex(void)
 //where to store the version during module load
 static thread_local std::string *currentModuleVersion(nullptr);
 
+//associate registrations with a module during its load, also when it fails
+struct ActiveModuleGuard
+{
+    ActiveModuleGuard(const Pothos::PluginModule &module, std::string &version)
+    {
+        registrySetActiveModuleLoading(&module);
+        currentModuleVersion = &version;
+    }
+    ~ActiveModuleGuard(void)
+    {
+        currentModuleVersion = nullptr;
+        registrySetActiveModuleLoading(nullptr);
+    }
+};
+
 /***********************************************************************
  * Shared implementation for module data
  **********************************************************************/
@@ -91,12 +106,9 @@ Pothos::PluginModule::PluginModule(const std::string &path):
     try
     {
         std::lock_guard<std::mutex> lock(getModuleMutex());
-        registrySetActiveModuleLoading(*this);
-        currentModuleVersion = &(_impl->version);
+        ActiveModuleGuard amg(*this, _impl->version);
         ErrorMessageDisableGuard emdg;
         _impl->sharedLibrary.load(path);
-        currentModuleVersion = nullptr;
-        registrySetActiveModuleLoading(PluginModule());
         _impl->pluginPaths = ::getPluginPaths(*this);
     }
     catch(const Poco::LibraryLoadException &ex)
diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 682196e..6fa298a 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -139,16 +139,19 @@ static void handleMissedSubTreeEvents(const Pothos::Object &handler, const Potho
 /***********************************************************************
  * active module implementation
  **********************************************************************/
-static Pothos::PluginModule &getActiveModuleLoading(void)
+//! The module load and its static initializers share a thread.
+//! Registrations from other threads do not belong to the module.
+//! A plain pointer: construction would lock the dynamic loader.
+static thread_local const Pothos::PluginModule *activeModuleLoading(nullptr);
+
+static const Pothos::PluginModule &getActiveModuleLoading(void)
 {
-    static Pothos::PluginModule module;
-    return module;
+    return (activeModuleLoading == nullptr)?Pothos::PluginModule::null():*activeModuleLoading;
 }
 
-void registrySetActiveModuleLoading(const Pothos::PluginModule &module)
+void registrySetActiveModuleLoading(const Pothos::PluginModule *module)
 {
-    //made thread safe by lock in caller routine from Module.cpp
-    getActiveModuleLoading() = module;
+    activeModuleLoading = module;
 }
 
 void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin);
@@ -161,6 +164,7 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
     //copy the plugin -- we need an rw copy to attach module to
     Plugin plugin = plugin_;
     const PluginPath &path = plugin.getPath();
+    const PluginModule &activeModule = getActiveModuleLoading();
 
     poco_debug(Poco::Logger::get("Pothos.PluginRegistry.add"), plugin.toString());
 
@@ -181,14 +185,14 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
         //throw if the root already has a plugin
         if (root->hasPlugin)
         {
-            const auto newModulePath = getActiveModuleLoading().getFilePath();
+            const auto newModulePath = activeModule.getFilePath();
             const auto currentModulePath = root->plugin.getModule().getFilePath();
             throw Pothos::PluginRegistryError("Pothos::PluginRegistry::add("+path.toString()+")", Poco::format(
                 "plugin already registered\n\tLoading: %s, Conflicts: %s", newModulePath, currentModulePath));
         }
 
         //store the plugin and attach the module
-        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());
+        plugin = Plugin(plugin.getPath(), plugin.getObject(), activeModule);
         updatePluginAssociation("add", plugin);
         root->hasPlugin = true;
         root->plugin = plugin;
-- 
2.43.0


From 972ca4ea6b591cc6b99d58ed340a20866b04025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 71/72] fix: unloading a module removes just its own remaining
 plugins

---
 include/Pothos/Plugin/Module.hpp |  6 ++++++
 lib/Plugin/Module.cpp            | 29 +++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Plugin/Module.hpp b/include/Pothos/Plugin/Module.hpp
index 119cbd1..4134199 100644
--- a/include/Pothos/Plugin/Module.hpp
+++ b/include/Pothos/Plugin/Module.hpp
@@ -40,6 +40,12 @@ public:
      */
     PluginModule(const std::string &path);
 
+    //! Copy constructor: both refer to the same module
+    PluginModule(const PluginModule &other);
+
+    //! Copy assignment: releases the previous module
+    PluginModule &operator=(const PluginModule &other);
+
     //! Plugin module destructor.
     ~PluginModule(void);
 
diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index 1106d56..6328ce3 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -117,16 +117,41 @@ Pothos::PluginModule::PluginModule(const std::string &path):
     }
 }
 
+Pothos::PluginModule::PluginModule(const PluginModule &other) = default;
+
+Pothos::PluginModule &Pothos::PluginModule::operator=(const PluginModule &other)
+{
+    PluginModule tmp(other);
+    std::swap(_impl, tmp._impl);
+    return *this; //tmp releases the previous module
+}
+
 Pothos::PluginModule::~PluginModule(void)
 {
     if (not _impl) return; //no private data
-    if (not _impl.unique()) return; //this is not the last copy
+
+    //copies are released under this lock so that exactly one of them is the last
+    {
+        static std::mutex releaseMutex;
+        std::lock_guard<std::mutex> lock(releaseMutex);
+        if (not _impl.unique()) //this is not the last copy
+        {
+            _impl.reset();
+            return;
+        }
+    }
     if (not _impl->sharedLibrary.isLoaded()) return; //module not loaded
 
     poco_debug(Poco::Logger::get("Pothos.PluginModule.unload"), _impl->sharedLibrary.getPath());
     for (const auto &pluginPath : this->getPluginPaths())
     {
-        PluginRegistry::remove(pluginPath);
+        //only remove what this module still has in the registry
+        try
+        {
+            if (PluginRegistry::get(pluginPath).getModule()._impl != _impl) continue;
+            PluginRegistry::remove(pluginPath);
+        }
+        catch (const PluginRegistryError &){}
     }
     _impl->sharedLibrary.unload();
 }
-- 
2.43.0


From 0df8ee38186267427c2a03760c53df867ea961a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 72/72] fix: do not unload modules while the registry is locked

---
 lib/Plugin/Registry.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 6fa298a..8c4151a 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -168,6 +168,7 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 
     poco_debug(Poco::Logger::get("Pothos.PluginRegistry.add"), plugin.toString());
 
+    PluginModule keep; //released after the lock: the last copy unloads the module
     {
         std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
         const std::vector<std::string> pathNodes = path.listNodes();
@@ -186,7 +187,8 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
         if (root->hasPlugin)
         {
             const auto newModulePath = activeModule.getFilePath();
-            const auto currentModulePath = root->plugin.getModule().getFilePath();
+            keep = root->plugin.getModule();
+            const auto currentModulePath = keep.getFilePath();
             throw Pothos::PluginRegistryError("Pothos::PluginRegistry::add("+path.toString()+")", Poco::format(
                 "plugin already registered\n\tLoading: %s, Conflicts: %s", newModulePath, currentModulePath));
         }
@@ -221,6 +223,7 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
     poco_debug(Poco::Logger::get("Pothos.PluginRegistry.remove"), path.toString());
 
     Plugin plugin;
+    PluginModule keep; //released after the lock: the last copy unloads the module
     {
         std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
         RegistryEntry *root = findRegistryEntry(path);
@@ -233,6 +236,7 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 
         //clear plugin entry and return result
         plugin = root->plugin;
+        keep = plugin.getModule();
         updatePluginAssociation("remove", plugin);
         root->hasPlugin = false;
         root->plugin = Plugin(); //clears
@@ -277,7 +281,7 @@ Pothos::PluginRegistryInfoDump::PluginRegistryInfoDump(void)
     return;
 }
 
-static void loadInfoDump(const Pothos::PluginPath &path, const RegistryEntry &entry, Pothos::PluginRegistryInfoDump &dump)
+static void loadInfoDump(const Pothos::PluginPath &path, const RegistryEntry &entry, Pothos::PluginRegistryInfoDump &dump, std::vector<Pothos::PluginModule> &keep)
 {
     dump.pluginPath = path.toString();
     if (entry.hasPlugin)
@@ -285,21 +289,23 @@ static void loadInfoDump(const Pothos::PluginPath &path, const RegistryEntry &en
         assert(path == entry.plugin.getPath());
         const auto &obj = entry.plugin.getObject();
         if (obj) dump.objectType = obj.toString();
-        dump.modulePath = entry.plugin.getModule().getFilePath();
-        dump.moduleVersion = entry.plugin.getModule().getVersion();
+        keep.push_back(entry.plugin.getModule());
+        dump.modulePath = keep.back().getFilePath();
+        dump.moduleVersion = keep.back().getVersion();
     }
     for (const auto &name : entry.nodeNamesOrdered)
     {
         dump.subInfo.push_back(Pothos::PluginRegistryInfoDump());
-        loadInfoDump(path.join(name), entry.nodes.at(name), dump.subInfo.back());
+        loadInfoDump(path.join(name), entry.nodes.at(name), dump.subInfo.back(), keep);
     }
 }
 
 Pothos::PluginRegistryInfoDump Pothos::PluginRegistry::dump(void)
 {
+    std::vector<PluginModule> keep; //released after the lock: the last copy unloads the module
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
     PluginRegistryInfoDump dump;
-    loadInfoDump(PluginPath(), getRegistryRoot(), dump);
+    loadInfoDump(PluginPath(), getRegistryRoot(), dump, keep);
     return dump;
 }
 
-- 
2.43.0

