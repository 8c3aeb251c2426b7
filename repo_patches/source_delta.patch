From c525fed8343b17375f9dc98343097c395b99ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 001/100] fix: keep the fraction of the calibrated time-stamp
 counter rate

---
 src/common/time/detail/TscHelper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/time/detail/TscHelper.cpp b/src/common/time/detail/TscHelper.cpp
index a6c8799..911d94f 100644
--- a/src/common/time/detail/TscHelper.cpp
+++ b/src/common/time/detail/TscHelper.cpp
@@ -61,8 +61,10 @@ void TscHelper::calibrate() {
     auto dur = std::chrono::steady_clock::now() - startMonoTime_;
     uint64_t tickDiff = readTscImpl() - firstTick_;
 
-    uint64_t ticksPerUSec =
-        tickDiff / std::chrono::duration_cast<std::chrono::microseconds>(dur).count();
+    auto usec = std::chrono::duration_cast<std::chrono::duration<double, std::micro>>(dur).count();
+    // Keep the fraction: cutting off the ticks per microsecond would make the clock
+    // run fast by up to one part in a thousand, i.e. tens of seconds per day.
+    double ticksPerUSec = tickDiff / usec;
     ticksPerSecFactor_ = 1.0 / ticksPerUSec / 1000000.0;
     ticksPerMSecFactor_ = 1.0 / ticksPerUSec / 1000.0;
     ticksPerUSecFactor_ = 1.0 / ticksPerUSec;
-- 
2.43.0


From 00e21715b084733adc7a907e4db67d314666b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 002/100] fix: append an empty cord, a cord of another block
 size, or the cord itself

---
 src/common/base/Cord.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/common/base/Cord.cpp b/src/common/base/Cord.cpp
index 102afa2..3136df4 100644
--- a/src/common/base/Cord.cpp
+++ b/src/common/base/Cord.cpp
@@ -226,17 +226,16 @@ Cord& Cord::operator<<(const char* value) {
 }
 
 Cord& Cord::operator<<(const Cord& rhs) {
-    char* next = rhs.head_;
-    while (next != rhs.tail_) {
-        write(next, blockContentSize_);
-        // Get the pointer to the next block
-        memcpy(reinterpret_cast<char*>(&next),
-               next + blockContentSize_,
-               sizeof(char*));
+    if (&rhs == this) {
+        // Appending to ourselves would never reach the (moving) tail
+        return *this << rhs.str();
     }
 
-    // Last block
-    write(rhs.tail_, rhs.blockPt_);
+    // The other cord might be empty, or have a different block size
+    rhs.applyTo([this] (const char* block, int32_t len) {
+        write(block, len);
+        return true;
+    });
 
     return *this;
 }
-- 
2.43.0


From 6b19fe4492ccbe53e422d9c408bd8b035cfec25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 003/100] fix: keep an inline cord usable after clear()

---
 src/common/base/ICord.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 3432616..e8654ab 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -47,8 +47,8 @@ public:
 
         len_ = 0;
 
-        head_ = nullptr;
-        tail_ = nullptr;
+        head_ = inlineBlock_;
+        tail_ = head_;
     }
 
     // Apply each block to the visitor until the end or the visitor
-- 
2.43.0


From 3eccc48d053378f8279d088c89af2b96a4e50e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 004/100] fix: visit and append the last block of an inline
 cord when it is full

---
 src/common/base/ICord.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index e8654ab..03ec3c2 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -69,7 +69,7 @@ public:
         }
 
         // Last block
-        return visitor(tail_, lengthMod());
+        return visitor(tail_, tailSize());
     }
 
     // Append the cord content to the given string
@@ -86,8 +86,7 @@ public:
         }
 
         // Last block
-        std::size_t lengthModSize = lengthMod();
-        str.append(tail_, lengthModSize == 0 ? kBlockContentSize : lengthModSize);
+        str.append(tail_, tailSize());
 
         return len_;
     }
@@ -181,15 +180,15 @@ public:
     }
 
     ICord<kBlockContentSize>& operator<<(const ICord& rhs) {
-        char* n = rhs.head_;
-        while (n != rhs.tail_) {
-            write(n, kBlockContentSize);
-            // Get the pointer to the next block
-            n = next(n);
+        if (&rhs == this) {
+            // Appending to ourselves would never reach the (moving) tail
+            return *this << rhs.str();
         }
 
-        // Last block
-        write(rhs.tail_, rhs.lengthMod());
+        rhs.applyTo([this] (const char* block, int32_t len) {
+            write(block, len);
+            return true;
+        });
 
         return *this;
     }
@@ -208,6 +207,11 @@ private:
         return len_ & (kBlockContentSize - 1);
     }
 
+    // Used size in the last block of a non-empty cord: the whole block when it is full
+    std::size_t tailSize() const {
+        return isFull() ? kBlockContentSize : lengthMod();
+    }
+
     // Is there only inline allocation
     bool isInline() const {
         return len_ < kBlockContentSize;
-- 
2.43.0


From dace3bcb8d4ba8d15e029fa458084eb1a0b1ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 005/100] fix: check the allocation of an inline cord's block

---
 src/common/base/ICord.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 03ec3c2..44dbe6c 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -7,6 +7,7 @@
 #pragma once
 
 #include "common/base/Base.h"
+#include "common/base/Logging.h"
 
 namespace nebula {
 
@@ -229,6 +230,7 @@ private:
     void allocateBlock() {
         DCHECK(isFull());
         char* blk = reinterpret_cast<char*>(malloc(kBlockSize * sizeof(char)));
+        CHECK(blk) << "Out of memory";
 
         if (tail_) {
             // Link the tail to the new block
-- 
2.43.0


From 42f13643fad1a05f2640565f29b84a4a8db137b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 006/100] fix: assign an EitherOr from the value it holds
 without destroying it first

---
 src/common/base/EitherOr.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/common/base/EitherOr.h b/src/common/base/EitherOr.h
index 900480d..479227b 100644
--- a/src/common/base/EitherOr.h
+++ b/src/common/base/EitherOr.h
@@ -265,29 +265,37 @@ public:
      *
      **********************************************/
     EitherOr& operator=(const LEFT& v) noexcept {
+        // The value might be (a part of) the one we are holding
+        LEFT value(v);
         reset();
-        new (&val_) Variant(kConstructLeft, v);
+        new (&val_) Variant(kConstructLeft, std::move(value));
         state_ = State::LEFT_TYPE;
         return *this;
     }
 
     EitherOr& operator=(LEFT&& v) noexcept {
+        // The value might be (a part of) the one we are holding
+        LEFT value(std::move(v));
         reset();
-        new (&val_) Variant(kConstructLeft, std::move(v));
+        new (&val_) Variant(kConstructLeft, std::move(value));
         state_ = State::LEFT_TYPE;
         return *this;
     }
 
     EitherOr& operator=(const RIGHT& v) noexcept {
+        // The value might be (a part of) the one we are holding
+        RIGHT value(v);
         reset();
-        new (&val_) Variant(kConstructRight, v);
+        new (&val_) Variant(kConstructRight, std::move(value));
         state_ = State::RIGHT_TYPE;
         return *this;
     }
 
     EitherOr& operator=(RIGHT&& v) noexcept {
+        // The value might be (a part of) the one we are holding
+        RIGHT value(std::move(v));
         reset();
-        new (&val_) Variant(kConstructRight, std::move(v));
+        new (&val_) Variant(kConstructRight, std::move(value));
         state_ = State::RIGHT_TYPE;
         return *this;
     }
@@ -300,8 +308,11 @@ public:
         EitherOr
     >&
     operator=(U&& v) noexcept {
+        using T = std::conditional_t<convert_to_s<U> == State::LEFT_TYPE, LEFT, RIGHT>;
+        // The value might be (a part of) the one we are holding
+        T value(std::forward<U>(v));
         reset();
-        new (&val_) Variant(convert_to_t<U>, std::forward<U>(v));
+        new (&val_) Variant(convert_to_t<U>, std::move(value));
         state_ = convert_to_s<U>;
         return *this;
     }
-- 
2.43.0


From 2aaf948310a74c8d8746533705ee342ac2b9e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 007/100] fix: GenericWorker's void tasks pass on the exception
 they threw

The exception was caught and handed to the promise as a std::exception, which
sliced off its type and message; other exceptions ended the process.
---
 src/common/thread/GenericWorker.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/thread/GenericWorker.h b/src/common/thread/GenericWorker.h
index 26c7a9e..ef7e5ec 100644
--- a/src/common/thread/GenericWorker.h
+++ b/src/common/thread/GenericWorker.h
@@ -190,8 +190,9 @@ auto GenericWorker::addTask(F &&f, Args &&...args)
             try {
                 (*task)();
                 promise->setValue(folly::unit);
-            } catch (const std::exception& ex) {
-                promise->setException(ex);
+            } catch (...) {
+                // Not by `const std::exception&', which would slice the exception
+                promise->setException(folly::exception_wrapper(std::current_exception()));
             }
         });
     }
@@ -235,8 +236,9 @@ auto GenericWorker::addDelayTask(size_t ms, F &&f, Args &&...args)
         try {
             (*task)();
             promise->setValue(folly::unit);
-        } catch (const std::exception& ex) {
-            promise->setException(ex);
+        } catch (...) {
+            // Not by `const std::exception&', which would slice the exception
+            promise->setException(folly::exception_wrapper(std::current_exception()));
         }
     });
     return future;
-- 
2.43.0


From 035d2fd8f0d7edbb26e24f1f933f269e15001b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 008/100] fix: GenericWorker releases its timers before their
 event base

A worker that ended with active timers freed their events after the event base,
which makes libevent use the freed base.
---
 src/common/thread/GenericWorker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index d81a20e..50088c8 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -17,6 +17,8 @@ GenericWorker::GenericWorker() = default;
 GenericWorker::~GenericWorker() {
     stop();
     wait();
+    // The timers must go before the event base they belong to
+    activeTimers_.clear();
     if (notifier_ != nullptr) {
         event_free(notifier_);
         notifier_ = nullptr;
-- 
2.43.0


From 36d45379410f60f929337a4bd202202bd90f065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 009/100] fix: GenericWorker does not lose the purging of a
 just added timer

A timer added and purged by another thread between the two swaps in onNotify
was looked up before it was activated, and fired for ever.
---
 src/common/thread/GenericWorker.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index 50088c8..b41a05d 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -116,11 +116,15 @@ void GenericWorker::onNotify() {
             task();
         }
     }
+    // Taken together with the timers: otherwise a timer that is added and purged
+    // in between would be purged before it was known, and stay for ever.
+    decltype(purgingingTimers_) purgings;
     {
         decltype(pendingTimers_) newcomings;
         {
             std::lock_guard<std::mutex> guard(lock_);
             newcomings.swap(pendingTimers_);
+            purgings.swap(purgingingTimers_);
         }
         auto cb = [] (int fd, int16_t, void *arg) {
             UNUSED(fd);
@@ -144,15 +148,8 @@ void GenericWorker::onNotify() {
             activeTimers_[id] = std::move(timer);
         }
     }
-    {
-        decltype(purgingingTimers_) newcomings;
-        {
-            std::lock_guard<std::mutex> guard(lock_);
-            newcomings.swap(purgingingTimers_);
-        }
-        for (auto id : newcomings) {
-            purgeTimerInternal(id);
-        }
+    for (auto id : purgings) {
+        purgeTimerInternal(id);
     }
 }
 
-- 
2.43.0


From 84079ba13b2e8cc8f5618adcb7296efd982a0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 010/100] fix: GenericWorker counts a timer's delay from when
 it was added

libevent adds the delay to the time it cached when the loop woke up, i.e. before
the pending tasks ran, so that a timer fired early by the time those took.
---
 src/common/thread/GenericWorker.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index b41a05d..35b24d2 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -135,6 +135,9 @@ void GenericWorker::onNotify() {
                 worker->purgeTimerInternal(timer->id_);
             }
         };
+        // The tasks above might have taken long: without this the delays would be
+        // counted from the time cached before them, and the timers fire too early.
+        event_base_update_cache_time(evbase_);
         for (auto &timer : newcomings) {
             timer->ev_ = event_new(evbase_, -1, EV_PERSIST, cb, timer.get());
 
-- 
2.43.0


From 6ef07fbc16768541c008e482d96c1759c2b6bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 011/100] fix: GenericWorker does not leak its resources when
 started again

Starting a worker again after it was stopped, or after a start that failed,
overwrote the event base, the notifier and the eventfd of the previous start.
---
 src/common/thread/GenericWorker.cpp | 8 ++++++++
 src/common/thread/GenericWorker.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index 35b24d2..c1addb0 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -17,6 +17,10 @@ GenericWorker::GenericWorker() = default;
 GenericWorker::~GenericWorker() {
     stop();
     wait();
+    release();
+}
+
+void GenericWorker::release() {
     // The timers must go before the event base they belong to
     activeTimers_.clear();
     if (notifier_ != nullptr) {
@@ -29,6 +33,7 @@ GenericWorker::~GenericWorker() {
     }
     if (evfd_ >= 0) {
         ::close(evfd_);
+        evfd_ = -1;
     }
 }
 
@@ -39,6 +44,9 @@ bool GenericWorker::start(std::string name) {
     }
     name_ = std::move(name);
 
+    // Release what an earlier run, or a failed start, left behind
+    release();
+
     // Create an event base
     evbase_ = event_base_new();
     DCHECK(evbase_ != nullptr);
diff --git a/src/common/thread/GenericWorker.h b/src/common/thread/GenericWorker.h
index ef7e5ec..c2b046d 100644
--- a/src/common/thread/GenericWorker.h
+++ b/src/common/thread/GenericWorker.h
@@ -147,6 +147,7 @@ private:
     };
 
 private:
+    void release();
     void loop();
     void notify();
     void onNotify();
-- 
2.43.0


From 9476e8acf08213c2d081ce46722a56174eb88ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 012/100] fix: LRU cache keeps its capacity when an insert runs
 out of memory

---
 src/common/base/ConcurrentLRUCache.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/base/ConcurrentLRUCache.h b/src/common/base/ConcurrentLRUCache.h
index 83e8a48..6436187 100644
--- a/src/common/base/ConcurrentLRUCache.h
+++ b/src/common/base/ConcurrentLRUCache.h
@@ -216,8 +216,13 @@ public:
             }
             // insert the new item
             list_.push_front(key);
-            map_.emplace(std::forward<key_type>(key),
-                         std::make_tuple(std::forward<value_type>(value), list_.begin()));
+            try {
+                map_.emplace(std::forward<key_type>(key),
+                             std::make_tuple(std::forward<value_type>(value), list_.begin()));
+            } catch (...) {
+                list_.pop_front();
+                throw;
+            }
         } else {
             // Overwrite the value
             std::get<0>(it->second) = std::move(value);
-- 
2.43.0


From 26dec4e39a64c9acfbc4a39392b4b0db11d64e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 013/100] fix: ObjectPool does not leak an object it could not
 take

---
 src/common/base/ObjectPool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/base/ObjectPool.h b/src/common/base/ObjectPool.h
index e165b89..6a51f59 100644
--- a/src/common/base/ObjectPool.h
+++ b/src/common/base/ObjectPool.h
@@ -9,6 +9,7 @@
 
 #include <functional>
 #include <list>
+#include <memory>
 #include <type_traits>
 
 #include <folly/SpinLock.h>
@@ -43,7 +44,9 @@ public:
 
     template <typename T, typename... Args>
     T *makeAndAdd(Args&&... args) {
-        return add(new T(std::forward<Args>(args)...));
+        auto obj = std::make_unique<T>(std::forward<Args>(args)...);
+        add(obj.get());
+        return obj.release();
     }
 
     bool empty() const {
-- 
2.43.0


From b6058d83003283019e53065df64ef4d881f0d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 014/100] fix: reservoir sampling gives every value the same
 chance

---
 src/common/algorithm/ReservoirSampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/algorithm/ReservoirSampling.h b/src/common/algorithm/ReservoirSampling.h
index 395b9d7..6f72950 100644
--- a/src/common/algorithm/ReservoirSampling.h
+++ b/src/common/algorithm/ReservoirSampling.h
@@ -26,7 +26,7 @@ public:
             ++cnt_;
             return true;
         } else {
-            auto index = folly::Random::rand64(cnt_);
+            auto index = folly::Random::rand64(cnt_ + 1);
             if (index < num_) {
                 samples_[index] = (std::move(sample));
                 ++cnt_;
-- 
2.43.0


From 2a0826972594474d44d2359a69f06b64429d2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 015/100] fix: readLink does not cut targets longer than 1024
 bytes

---
 src/common/fs/FileUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index c44cc38..2ea3173 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -15,7 +15,7 @@
 namespace nebula {
 namespace fs {
 
-static const int32_t kMaxPathLen = 1024;
+static const int32_t kMaxPathLen = PATH_MAX;
 
 namespace detail {
 
-- 
2.43.0


From f004879fb967ddd58022cc60dbe8b6a29d5718c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 016/100] fix: an iterator over a symbolic link keeps the error
 of opening its target

---
 src/common/fs/FileUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index 2ea3173..904dae3 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -549,6 +549,7 @@ void FileUtils::Iterator::openFileOrDirectory() {
         }
         path_ = std::move(result).value();
         openFileOrDirectory();
+        return;
     } else {
         status_ = Status::Error("Filetype not supported `%s': %s",
                                 path_.c_str(), FileUtils::getFileTypeName(type_));
-- 
2.43.0


From 3fdd29132c943d9791f94d6221df7f8124aadf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 017/100] fix: removing what someone else removes at the same
 time succeeds

---
 src/common/fs/FileUtils.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index 904dae3..eaa80e4 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -23,6 +23,10 @@ bool removeDir(const char* path, bool recursively) {
     // Assuming the path is a directory
     DIR *dh = opendir(path);
     if (!dh) {
+        if (errno == ENOENT) {
+            // Someone else has removed it in the meantime
+            return true;
+        }
         LOG(ERROR) << "Failed to read the directory \"" << path
                    << "\" (" << errno << "): " << strerror(errno);
         return false;
@@ -30,8 +34,13 @@ bool removeDir(const char* path, bool recursively) {
 
     bool succeeded = true;
     struct dirent *dEnt;
-    errno = 0;
-    while (succeeded && !!(dEnt = readdir(dh))) {
+    while (succeeded) {
+        // Only an error of readdir() counts, not one that is left over
+        errno = 0;
+        if (!(dEnt = readdir(dh))) {
+            break;
+        }
+
         if (!strcmp(dEnt->d_name, ".") || !strcmp(dEnt->d_name, "..")) {
             // Skip "." and ".."
             continue;
@@ -77,7 +86,7 @@ bool removeDir(const char* path, bool recursively) {
     }
 
     // All content has been removed, now remove the directory itself
-    if (rmdir(path)) {
+    if (rmdir(path) && errno != ENOENT) {
         LOG(ERROR) << "Failed to remove the directory \"" << path
                    << "\" (" << errno << "): " << strerror(errno);
         return false;
@@ -298,7 +307,7 @@ bool FileUtils::remove(const char* path, bool recursively) {
     case FileType::REGULAR:
     case FileType::SYM_LINK:
         // Regular file or link
-        if (unlink(path)) {
+        if (unlink(path) && errno != ENOENT) {
             // Failed
             LOG(ERROR) << "Failed to remove the file \"" << path
                        << "\" (" << errno << "): " << strerror(errno);
-- 
2.43.0


From 3539b67a2a7f9640741abb97f90f3db2e65f5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 018/100] fix: a cluster id once persisted survives a crash and
 a failing disk

---
 .../clients/meta/FileBasedClusterIdMan.cpp    | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/common/clients/meta/FileBasedClusterIdMan.cpp b/src/common/clients/meta/FileBasedClusterIdMan.cpp
index 825194b..fd471be 100644
--- a/src/common/clients/meta/FileBasedClusterIdMan.cpp
+++ b/src/common/clients/meta/FileBasedClusterIdMan.cpp
@@ -19,22 +19,33 @@ bool FileBasedClusterIdMan::persistInFile(ClusterID clusterId,
         LOG(ERROR) << "Failed mkdir " << dirname;
         return false;
     }
-    if (fs::FileUtils::remove(filename.c_str())) {
-        LOG(INFO) << "Remove the existed file " << filename;
-    }
-    int fd = ::open(filename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
+    // Write a file aside and put it in place of the old one in a single step, so that the
+    // old id remains until the new one is on disk
+    std::string temp = filename + ".XXXXXX";
+    int fd = ::mkstemp(&temp[0]);
     if (fd < 0) {
-        LOG(ERROR) << "Open file error, file " << filename << ", error " << strerror(errno);
+        LOG(ERROR) << "Open file error, file " << temp << ", error " << strerror(errno);
         return false;
     }
-    int bytes = ::write(fd, reinterpret_cast<const char*>(&clusterId), sizeof(ClusterID));
-    if (bytes != sizeof(clusterId)) {
+    auto bytes = ::write(fd, reinterpret_cast<const char*>(&clusterId), sizeof(ClusterID));
+    bool written = bytes == sizeof(clusterId) && ::fchmod(fd, 0644) == 0 && ::fsync(fd) == 0;
+    written = ::close(fd) == 0 && written;
+    if (!written || ::rename(temp.c_str(), filename.c_str()) != 0) {
         LOG(ERROR) << "Write clusterId failed!";
-        ::close(fd);
+        ::unlink(temp.c_str());
+        return false;
+    }
+    // The new name is durable only when its directory is
+    int dirfd = ::open(dirname.c_str(), O_RDONLY | O_DIRECTORY);
+    bool synced = dirfd >= 0 && ::fsync(dirfd) == 0;
+    if (dirfd >= 0) {
+        ::close(dirfd);
+    }
+    if (!synced) {
+        LOG(ERROR) << "Sync directory " << dirname << " failed!";
         return false;
     }
     LOG(INFO) << "Persiste clusterId " << clusterId << " succeeded!";
-    ::close(fd);
     return true;
 }
 
-- 
2.43.0


From a2349cbe659a2a5f4e5806afeb28b155ed94011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 019/100] fix: an iterator tells an error in reading from the
 end

---
 src/common/fs/FileUtils.cpp | 20 ++++++++++++++------
 src/common/fs/FileUtils.h   |  6 ++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index eaa80e4..85fe14c 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -513,13 +513,16 @@ void FileUtils::Iterator::dirNext() {
     CHECK(type_ == FileType::DIRECTORY);
     CHECK(dir_ != nullptr);
     struct dirent *dent;
-    while ((dent = ::readdir(dir_)) != nullptr) {
-        if (dent->d_name[0] == '.') {
-            continue;
-        }
-        break;
-    }
+    do {
+        errno = 0;
+        dent = ::readdir(dir_);
+    } while (dent != nullptr && dent->d_name[0] == '.');
     if (dent == nullptr) {
+        if (errno != 0) {
+            status_ = Status::Error("readdir `%s': %s", path_.c_str(), ::strerror(errno));
+            return;
+        }
+        eof_ = true;
         status_ = Status::Error("EOF");
         return;
     }
@@ -531,6 +534,11 @@ void FileUtils::Iterator::fileNext() {
     CHECK(type_ == FileType::REGULAR);
     CHECK(fstream_ != nullptr);
     if (!std::getline(*fstream_, entry_)) {
+        if (fstream_->bad()) {
+            status_ = Status::Error("read `%s': %s", path_.c_str(), ::strerror(errno));
+            return;
+        }
+        eof_ = true;
         status_ = Status::Error("EOF");
     }
 }
diff --git a/src/common/fs/FileUtils.h b/src/common/fs/FileUtils.h
index b5f071d..3832969 100644
--- a/src/common/fs/FileUtils.h
+++ b/src/common/fs/FileUtils.h
@@ -234,6 +234,11 @@ public:
             return status_;
         }
 
+        // Whether it is not valid because everything has been gone through
+        bool eof() const {
+            return eof_;
+        }
+
     private:
         void openFileOrDirectory();
         void dirNext();
@@ -248,6 +253,7 @@ public:
         std::string                         entry_;
         std::smatch                         matched_;
         Status                              status_;
+        bool                                eof_{false};
     };
 };
 
-- 
2.43.0


From 0684827672595e905d95dd07dd46da740936da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 020/100] fix: a pid file that cannot be read or names no
 process is told apart from a live one

---
 src/common/process/ProcessUtils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index fa19edc..defef21 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -44,11 +44,20 @@ Status ProcessUtils::isPidAvailable(const std::string &pidFile) {
     static const std::regex pattern("([0-9]+)");
     fs::FileUtils::FileLineIterator iter(pidFile, &pattern);
     if (!iter.valid()) {
+        if (!iter.eof()) {
+            // Nobody knows which pid is in the file
+            return iter.status();
+        }
         // Pidfile is readable but has no valid pid
         return Status::OK();
     }
+    auto pid = ::strtoll(iter.matched()[1].str().c_str(), nullptr, 10);
+    if (pid <= 0 || pid > std::numeric_limits<pid_t>::max()) {
+        // There is a number, but not one of a process
+        return Status::OK();
+    }
     // Now we have a valid pid
-    return isPidAvailable(folly::to<uint32_t>(iter.matched()[1].str()));
+    return isPidAvailable(static_cast<pid_t>(pid));
 }
 
 
-- 
2.43.0


From 6c23c86d698a0f278916a02c0188a7f54e9d1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 021/100] fix: makePidFile reports a pid file that could not be
 written

---
 src/common/process/ProcessUtils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index defef21..482d410 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -80,9 +80,11 @@ Status ProcessUtils::makePidFile(const std::string &pidFile, pid_t pid) {
         pid = ::getpid();
     }
 
-    ::fprintf(file, "%d\n", pid);
-    ::fflush(file);
-    ::fclose(file);
+    bool written = ::fprintf(file, "%d\n", pid) > 0;
+    written = ::fclose(file) == 0 && written;
+    if (!written) {
+        return Status::Error("Write `%s': %s", pidFile.c_str(), ::strerror(errno));
+    }
 
     return Status::OK();
 }
-- 
2.43.0


From d016213fe134968bfd9ed6f21b43c43ae2fa11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 022/100] fix: wait for a command whose output could not be
 read

---
 src/common/process/ProcessUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index 482d410..537385d 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -170,7 +170,7 @@ StatusOr<std::string> ProcessUtils::runCommand(const char* command) {
 
     if (ferror(f)) {
         // Something is wrong
-        fclose(f);
+        pclose(f);
         return Status::Error("Failed to read the output of the command");
     }
 
-- 
2.43.0


From 95b125e63493cc0da50749128b878e5052db5018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 023/100] fix: call a signal handler once for each signal

---
 src/common/base/SignalHandler.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/base/SignalHandler.cpp b/src/common/base/SignalHandler.cpp
index 99e0091..f4b69ff 100644
--- a/src/common/base/SignalHandler.cpp
+++ b/src/common/base/SignalHandler.cpp
@@ -100,11 +100,10 @@ void SignalHandler::doHandle(int sig, siginfo_t *info, void *uctx) {
             break;
         case SIGCHLD:
             // TODO(dutor) Since we rarely use this signal, we regard it as a general one for now.
+        default:
             handleGeneralSignal(sig, info);
             break;
     }
-
-    handleGeneralSignal(sig, info);
 }
 
 
-- 
2.43.0


From 178f6f197498f57c8b0992da240ecc271074635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 024/100] fix: a signal may arrive while its handler is
 installed

---
 src/common/base/SignalHandler.cpp | 12 +++++++-----
 src/common/base/SignalHandler.h   |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/common/base/SignalHandler.cpp b/src/common/base/SignalHandler.cpp
index f4b69ff..4ca25c6 100644
--- a/src/common/base/SignalHandler.cpp
+++ b/src/common/base/SignalHandler.cpp
@@ -71,14 +71,16 @@ Status SignalHandler::installInternal(int sig, Handler handler) {
     ::memset(&act, 0, sizeof(act));
     act.sa_sigaction = &handlerHook;
     act.sa_flags |= SA_SIGINFO;
+    auto index = sig - 1;
+    // The signal may arrive as soon as it is registered
+    auto *previous = handlers_[index].exchange(new Handler(std::move(handler)));
     if (::sigaction(sig, &act, nullptr) != 0) {
+        handlers_[index] = previous;
         return Status::Error("Register signal %d failed: %s", sig, ::strerror(errno));
     }
-    auto index = sig - 1;
-    if (handlers_[index]) {
+    if (previous != nullptr) {
         LOG(WARNING) << "Register signal " << sig << " twice!";
     }
-    handlers_[index] = std::move(handler);
     return Status::OK();
 }
 
@@ -110,14 +112,14 @@ void SignalHandler::doHandle(int sig, siginfo_t *info, void *uctx) {
 void SignalHandler::handleGeneralSignal(int sig, siginfo_t *info) {
     auto index = sig - 1;
     GeneralSignalInfo siginfo(info);
-    handlers_[index](&siginfo);
+    (*handlers_[index].load())(&siginfo);
 }
 
 
 void SignalHandler::handleFatalSignal(int sig, siginfo_t *info, void *uctx) {
     auto index = sig - 1;
     FatalSignalInfo siginfo(info, uctx);
-    handlers_[index](&siginfo);
+    (*handlers_[index].load())(&siginfo);
     // Restore the signal handler to its default to make the program crash
     ::signal(sig, SIG_DFL);
     ::raise(sig);
diff --git a/src/common/base/SignalHandler.h b/src/common/base/SignalHandler.h
index f531568..d92a952 100644
--- a/src/common/base/SignalHandler.h
+++ b/src/common/base/SignalHandler.h
@@ -94,7 +94,8 @@ private:
 
 private:
     // The POSIX signal number ranges from 1 to 64, so we use (sig - 1) as index
-    std::array<Handler, 64>                     handlers_;
+    // A signal may arrive at any time, so a handler that was replaced is not freed
+    std::array<std::atomic<Handler*>, 64>       handlers_{};
 };
 
 
-- 
2.43.0


From 1bb5851e4d4bc5631966b046c35b2249f3f90b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 025/100] fix: ThriftClientManager finds the clients of named
 hosts again

The client was looked up under the host as given but remembered under the
resolved address, so that every look-up of a named host made another
connection.
---
 src/common/thrift/ThriftClientManager.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/thrift/ThriftClientManager.inl b/src/common/thrift/ThriftClientManager.inl
index bcbb2e4..97d0c31 100644
--- a/src/common/thrift/ThriftClientManager.inl
+++ b/src/common/thrift/ThriftClientManager.inl
@@ -83,7 +83,7 @@ std::shared_ptr<ClientType> ThriftClientManager<ClientType>::client(
     std::shared_ptr<ClientType> client(
         new ClientType(std::move(headerClientChannel)),
         [evb](auto* p) { evb->runImmediatelyOrRunInEventBaseThreadAndWait([p] { delete p; }); });
-    clientMap_->emplace(std::make_pair(resolved, evb), client);
+    clientMap_->emplace(std::make_pair(host, evb), client);
     return client;
 }
 
-- 
2.43.0


From 2bdbb6c089dc746c28905096f8c4ed5c368a9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 026/100] fix: a full-text index that does not exist is not
 found, and looking for it leaves the cache alone

---
 src/common/clients/meta/MetaClient.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 0298977..17631f8 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3646,11 +3646,11 @@ MetaClient::getFTIndexByNameFromCache(GraphSpaceID spaceId, const std::string& n
         return Status::Error("Not ready!");
     }
     folly::RWSpinLock::ReadHolder holder(localCacheLock_);
-    if (fulltextIndexMap_.find(name) != fulltextIndexMap_.end() &&
-        fulltextIndexMap_[name].get_space_id() != spaceId) {
+    auto it = fulltextIndexMap_.find(name);
+    if (it == fulltextIndexMap_.end() || it->second.get_space_id() != spaceId) {
         return Status::IndexNotFound();
     }
-    return fulltextIndexMap_[name];
+    return it->second;
 }
 
 folly::Future<StatusOr<cpp2::CreateSessionResp>>
-- 
2.43.0


From 4b58cf6f7229a44beee4ad4f61132986491c7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 027/100] fix: a failed listHosts fails the load of the meta
 cache instead of aborting the process

---
 src/common/clients/meta/MetaClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 17631f8..119b3d2 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -261,7 +261,7 @@ bool MetaClient::loadData() {
     }
 
     auto hostsRet = listHosts().get();
-    if (!ret.ok()) {
+    if (!hostsRet.ok()) {
         LOG(ERROR) << "List hosts failed, status:" << hostsRet.status();
         return false;
     }
-- 
2.43.0


From cf6d589317cbe5efb11a24ffd6268082dbe47f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 028/100] fix: storage leaders of newly created spaces are
 loaded with them

---
 src/common/clients/meta/MetaClient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 119b3d2..8507719 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -273,8 +273,8 @@ bool MetaClient::loadData() {
             return *hostItem.hostAddr_ref();
         });
 
-    loadLeader(hostItems, spaceIndexByName_);
-
+    // the leaders belong to the spaces just listed, not to the ones cached so far
+    auto leaderSpaces = spaceIndexByName;
     decltype(localCache_) oldCache;
     {
         folly::RWSpinLock::WriteHolder holder(localCacheLock_);
@@ -290,6 +290,7 @@ bool MetaClient::loadData() {
         spaceAllEdgeMap_        = std::move(spaceAllEdgeMap);
         storageHosts_           = std::move(hosts);
     }
+    loadLeader(hostItems, leaderSpaces);
 
     diff(oldCache, localCache_);
     listenerDiff(oldCache, localCache_);
-- 
2.43.0


From b1be42ccdb9b7ad1e338524a75b01485f6efd568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 029/100] fix: the full-text clients are read under the lock
 they are replaced under

---
 src/common/clients/meta/MetaClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 8507719..5c40e0c 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3543,6 +3543,7 @@ StatusOr<std::vector<cpp2::FTClient>> MetaClient::getFTClientsFromCache() {
     if (!ready_) {
         return Status::Error("Not ready!");
     }
+    folly::RWSpinLock::ReadHolder holder(localCacheLock_);
     return fulltextClientList_;
 }
 
-- 
2.43.0


From 64f8023f85082ef9b8b99b66f81806b2d844de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 030/100] fix: the maps from index names to ids are loaded
 aside and replaced under the lock

---
 src/common/clients/meta/MetaClient.cpp | 38 ++++++++++++++++++--------
 src/common/clients/meta/MetaClient.h   |  5 +++-
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 5c40e0c..287c5fb 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -203,6 +203,8 @@ bool MetaClient::loadData() {
     decltype(spaceEdgeIndexByType_)     spaceEdgeIndexByType;
     decltype(spaceTagIndexById_)        spaceTagIndexById;
     decltype(spaceAllEdgeMap_)          spaceAllEdgeMap;
+    decltype(tagNameIndexMap_)          tagNameIndexMap;
+    decltype(edgeNameIndexMap_)         edgeNameIndexMap;
 
     for (auto space : ret.value()) {
         auto spaceId = space.first;
@@ -237,7 +239,7 @@ bool MetaClient::loadData() {
             return false;
         }
 
-        if (!loadIndexes(spaceId, spaceCache)) {
+        if (!loadIndexes(spaceId, spaceCache, tagNameIndexMap, edgeNameIndexMap)) {
             LOG(ERROR) << "Load Indexes Failed";
             return false;
         }
@@ -288,6 +290,8 @@ bool MetaClient::loadData() {
         spaceEdgeIndexByType_   = std::move(spaceEdgeIndexByType);
         spaceTagIndexById_      = std::move(spaceTagIndexById);
         spaceAllEdgeMap_        = std::move(spaceAllEdgeMap);
+        tagNameIndexMap_        = std::move(tagNameIndexMap);
+        edgeNameIndexMap_       = std::move(edgeNameIndexMap);
         storageHosts_           = std::move(hosts);
     }
     loadLeader(hostItems, leaderSpaces);
@@ -436,7 +440,9 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
 
 
 bool MetaClient::loadIndexes(GraphSpaceID spaceId,
-                             std::shared_ptr<SpaceInfoCache> cache) {
+                             std::shared_ptr<SpaceInfoCache> cache,
+                             NameIndexMap &tagNameIndexMap,
+                             NameIndexMap &edgeNameIndexMap) {
     auto tagIndexesRet = listTagIndexes(spaceId).get();
     if (!tagIndexesRet.ok()) {
         LOG(ERROR) << "Get tag indexes failed for spaceId " << spaceId
@@ -456,7 +462,7 @@ bool MetaClient::loadIndexes(GraphSpaceID spaceId,
         auto indexName = tagIndex.get_index_name();
         auto indexID = tagIndex.get_index_id();
         std::pair<GraphSpaceID, std::string> pair(spaceId, indexName);
-        tagNameIndexMap_[pair] = indexID;
+        tagNameIndexMap[pair] = indexID;
         auto tagIndexPtr = std::make_shared<cpp2::IndexItem>(tagIndex);
         tagIndexes.emplace(indexID, tagIndexPtr);
     }
@@ -467,7 +473,7 @@ bool MetaClient::loadIndexes(GraphSpaceID spaceId,
         auto indexName = edgeIndex.get_index_name();
         auto indexID = edgeIndex.get_index_id();
         std::pair<GraphSpaceID, std::string> pair(spaceId, indexName);
-        edgeNameIndexMap_[pair] = indexID;
+        edgeNameIndexMap[pair] = indexID;
         auto edgeIndexPtr = std::make_shared<cpp2::IndexItem>(edgeIndex);
         edgeIndexes.emplace(indexID, edgeIndexPtr);
     }
@@ -2159,11 +2165,15 @@ MetaClient::getTagIndexByNameFromCache(const GraphSpaceID space, const std::stri
         return Status::Error("Not ready!");
     }
     std::pair<GraphSpaceID, std::string> key(space, name);
-    auto iter = tagNameIndexMap_.find(key);
-    if (iter == tagNameIndexMap_.end()) {
-        return Status::IndexNotFound();
+    IndexID indexID;
+    {
+        folly::RWSpinLock::ReadHolder holder(localCacheLock_);
+        auto iter = tagNameIndexMap_.find(key);
+        if (iter == tagNameIndexMap_.end()) {
+            return Status::IndexNotFound();
+        }
+        indexID = iter->second;
     }
-    auto indexID = iter->second;
     auto itemStatus = getTagIndexFromCache(space, indexID);
     if (!itemStatus.ok()) {
         return itemStatus.status();
@@ -2178,11 +2188,15 @@ MetaClient::getEdgeIndexByNameFromCache(const GraphSpaceID space, const std::str
         return Status::Error("Not ready!");
     }
     std::pair<GraphSpaceID, std::string> key(space, name);
-    auto iter = edgeNameIndexMap_.find(key);
-    if (iter == edgeNameIndexMap_.end()) {
-        return Status::IndexNotFound();
+    IndexID indexID;
+    {
+        folly::RWSpinLock::ReadHolder holder(localCacheLock_);
+        auto iter = edgeNameIndexMap_.find(key);
+        if (iter == edgeNameIndexMap_.end()) {
+            return Status::IndexNotFound();
+        }
+        indexID = iter->second;
     }
-    auto indexID = iter->second;
     auto itemStatus = getEdgeIndexFromCache(space, indexID);
     if (!itemStatus.ok()) {
         return itemStatus.status();
diff --git a/src/common/clients/meta/MetaClient.h b/src/common/clients/meta/MetaClient.h
index e52e670..546fd2b 100644
--- a/src/common/clients/meta/MetaClient.h
+++ b/src/common/clients/meta/MetaClient.h
@@ -663,7 +663,10 @@ protected:
 
     bool loadUsersAndRoles();
 
-    bool loadIndexes(GraphSpaceID spaceId, std::shared_ptr<SpaceInfoCache> cache);
+    bool loadIndexes(GraphSpaceID spaceId,
+                     std::shared_ptr<SpaceInfoCache> cache,
+                     NameIndexMap &tagNameIndexMap,
+                     NameIndexMap &edgeNameIndexMap);
 
     bool loadListeners(GraphSpaceID spaceId, std::shared_ptr<SpaceInfoCache> cache);
 
-- 
2.43.0


From 6c4525bdfffc1f53b442f5201c29b7fc359d87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 031/100] fix: a listener whose peers changed is removed before
 it is added again

---
 src/common/clients/meta/MetaClient.cpp | 80 +++++++++++++-------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 287c5fb..94c3653 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -920,91 +920,93 @@ void MetaClient::listenerDiff(const LocalCache& oldCache, const LocalCache& newC
         return;
     }
 
-    VLOG(1) << "Let's check if any listeners parts added for " << options_.localHost_;
-    for (auto& spaceEntry : newMap) {
+    // A listener is removed by its type only: when its peers change, the old one has to go
+    // before the new one comes.
+    VLOG(1) << "Let's check if any old listeners removed....";
+    for (auto& spaceEntry : oldMap) {
         auto spaceId = spaceEntry.first;
-        auto oldSpaceIter = oldMap.find(spaceId);
-        if (oldSpaceIter == oldMap.end()) {
-            // new space is added
-            VLOG(1) << "[Listener] SpaceId " << spaceId << " was added!";
-            listener_->onSpaceAdded(spaceId, true);
+        auto newSpaceIter = newMap.find(spaceId);
+        if (newSpaceIter == newMap.end()) {
+            // remove old space
             for (const auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
                 for (const auto& info : partEntry.second) {
-                    VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                            << " was added!";
-                    listener_->onListenerAdded(spaceId, partId, info);
+                    VLOG(1) << "SpaceId " << spaceId << ", partId " << partId << " was removed!";
+                    listener_->onListenerRemoved(spaceId, partId, info.type_);
                 }
             }
+            listener_->onSpaceRemoved(spaceId, true);
+            VLOG(1) << "[Listener] SpaceId " << spaceId << " was removed!";
         } else {
-            // check if new part listener is added
+            // check if part listener is removed
             for (auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
-                auto oldPartIter = oldSpaceIter->second.find(partId);
-                if (oldPartIter == oldSpaceIter->second.end()) {
+                auto newPartIter = newSpaceIter->second.find(partId);
+                if (newPartIter == newSpaceIter->second.end()) {
                     for (const auto& info : partEntry.second) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was added!";
-                        listener_->onListenerAdded(spaceId, partId, info);
+                                << " was removed!";
+                        listener_->onListenerRemoved(spaceId, partId, info.type_);
                     }
                 } else {
                     std::sort(partEntry.second.begin(), partEntry.second.end());
-                    std::sort(oldPartIter->second.begin(), oldPartIter->second.end());
+                    std::sort(newPartIter->second.begin(), newPartIter->second.end());
                     std::vector<ListenerHosts> diff;
                     std::set_difference(partEntry.second.begin(),
                                         partEntry.second.end(),
-                                        oldPartIter->second.begin(),
-                                        oldPartIter->second.end(),
+                                        newPartIter->second.begin(),
+                                        newPartIter->second.end(),
                                         std::back_inserter(diff));
                     for (const auto& info : diff) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was added!";
-                        listener_->onListenerAdded(spaceId, partId, info);
+                                << " was removed!";
+                        listener_->onListenerRemoved(spaceId, partId, info.type_);
                     }
                 }
             }
         }
     }
 
-    VLOG(1) << "Let's check if any old listeners removed....";
-    for (auto& spaceEntry : oldMap) {
+    VLOG(1) << "Let's check if any listeners parts added for " << options_.localHost_;
+    for (auto& spaceEntry : newMap) {
         auto spaceId = spaceEntry.first;
-        auto newSpaceIter = newMap.find(spaceId);
-        if (newSpaceIter == newMap.end()) {
-            // remove old space
+        auto oldSpaceIter = oldMap.find(spaceId);
+        if (oldSpaceIter == oldMap.end()) {
+            // new space is added
+            VLOG(1) << "[Listener] SpaceId " << spaceId << " was added!";
+            listener_->onSpaceAdded(spaceId, true);
             for (const auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
                 for (const auto& info : partEntry.second) {
-                    VLOG(1) << "SpaceId " << spaceId << ", partId " << partId << " was removed!";
-                    listener_->onListenerRemoved(spaceId, partId, info.type_);
+                    VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
+                            << " was added!";
+                    listener_->onListenerAdded(spaceId, partId, info);
                 }
             }
-            listener_->onSpaceRemoved(spaceId, true);
-            VLOG(1) << "[Listener] SpaceId " << spaceId << " was removed!";
         } else {
-            // check if part listener is removed
+            // check if new part listener is added
             for (auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
-                auto newPartIter = newSpaceIter->second.find(partId);
-                if (newPartIter == newSpaceIter->second.end()) {
+                auto oldPartIter = oldSpaceIter->second.find(partId);
+                if (oldPartIter == oldSpaceIter->second.end()) {
                     for (const auto& info : partEntry.second) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was removed!";
-                        listener_->onListenerRemoved(spaceId, partId, info.type_);
+                                << " was added!";
+                        listener_->onListenerAdded(spaceId, partId, info);
                     }
                 } else {
                     std::sort(partEntry.second.begin(), partEntry.second.end());
-                    std::sort(newPartIter->second.begin(), newPartIter->second.end());
+                    std::sort(oldPartIter->second.begin(), oldPartIter->second.end());
                     std::vector<ListenerHosts> diff;
                     std::set_difference(partEntry.second.begin(),
                                         partEntry.second.end(),
-                                        newPartIter->second.begin(),
-                                        newPartIter->second.end(),
+                                        oldPartIter->second.begin(),
+                                        oldPartIter->second.end(),
                                         std::back_inserter(diff));
                     for (const auto& info : diff) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was removed!";
-                        listener_->onListenerRemoved(spaceId, partId, info.type_);
+                                << " was added!";
+                        listener_->onListenerAdded(spaceId, partId, info);
                     }
                 }
             }
-- 
2.43.0


From 737deef2c3ac413d02f8b2a919b4ef44fc13181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 032/100] fix: no callback of the meta listener runs after it
 is unregistered

---
 src/common/clients/meta/MetaClient.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 94c3653..a3a7b0a 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -2496,6 +2496,8 @@ folly::Future<StatusOr<bool>> MetaClient::heartbeat() {
         }
         req.set_cluster_id(options_.clusterId_.load());
         std::unordered_map<GraphSpaceID, std::vector<cpp2::LeaderInfo>> leaderIds;
+        // the listener may be gone as soon as it is unregistered
+        folly::RWSpinLock::ReadHolder listenerHolder(listenerLock_);
         if (listener_ != nullptr) {
             listener_->fetchLeaderInfo(leaderIds);
             if (leaderIds_ != leaderIds) {
@@ -3175,7 +3177,7 @@ void MetaClient::updateGflagsValue(const cpp2::ConfigItem& item) {
             }
             gflags::SetCommandLineOption(item.get_name().c_str(), valueStr.c_str());
             // TODO: we simply judge the rocksdb by nested type for now
-            if (listener_ != nullptr && value.isMap()) {
+            if (value.isMap()) {
                 updateNestedGflags(value.getMap().kvs);
             }
             LOG(INFO) << "Update config " << item.get_name()
@@ -3186,6 +3188,10 @@ void MetaClient::updateGflagsValue(const cpp2::ConfigItem& item) {
 
 
 void MetaClient::updateNestedGflags(const std::unordered_map<std::string, Value> &nameValues) {
+    folly::RWSpinLock::ReadHolder listenerHolder(listenerLock_);
+    if (listener_ == nullptr) {
+        return;
+    }
     std::unordered_map<std::string, std::string> optionMap;
     for (const auto &value : nameValues) {
         optionMap.emplace(value.first, value.second.toString());
-- 
2.43.0


From 6a3f4fbf8209c020bd1c361fd84589f06e4b80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 033/100] fix: a leader told while another is picked is not
 overwritten

getStorageLeaderFromCache looks again under the write lock: two callers
no longer pick different leaders for one part, and a pick no longer
replaces a leader that was just reported.
---
 src/common/clients/meta/MetaClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index a3a7b0a..e9b88e8 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -2355,6 +2355,11 @@ MetaClient::getStorageLeaderFromCache(GraphSpaceID spaceId, PartitionID partId)
         }
         auto partHosts = partHostsRet.value();
         folly::RWSpinLock::WriteHolder wh(leadersLock_);
+        // someone else may have told or picked one since
+        auto iter = leadersInfo_.leaderMap_.find({spaceId, partId});
+        if (iter != leadersInfo_.leaderMap_.end()) {
+            return iter->second;
+        }
         VLOG(1) << "No leader exists. Choose one in round-robin.";
         auto index = (leadersInfo_.pickedIndex_[{spaceId, partId}] + 1) % partHosts.hosts_.size();
         auto picked = partHosts.hosts_[index];
-- 
2.43.0


From ac1f1d593c69f28c1dd5ae6b28f905d16ae9bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 034/100] fix: stopping the meta client while another thread
 waits for metad

stop() took the background thread away under waitForMetadReady(), which then
used it, and a stop before the wait began was forgotten: it waited for ever.
---
 src/common/clients/meta/MetaClient.cpp | 13 +++++++++++--
 src/common/clients/meta/MetaClient.h   |  4 +++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index e9b88e8..72e8721 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -84,7 +84,14 @@ bool MetaClient::waitForMetadReady(int count, int retryIntervalSecs) {
         GflagsManager::getGflagsModule(gflagsModule_);
         gflagsDeclared_ = GflagsManager::declareGflags(gflagsModule_);
     }
-    isRunning_ = true;
+    {
+        std::lock_guard<std::mutex> g(bgThreadLock_);
+        if (bgThread_ == nullptr) {
+            LOG(ERROR) << "The meta client has been stopped";
+            return false;
+        }
+        isRunning_ = true;
+    }
     int tryCount = count;
     while (!isMetadReady() && ((count == -1) || (tryCount > 0)) && isRunning_) {
         LOG(INFO) << "Waiting for the metad to be ready!";
@@ -92,6 +99,7 @@ bool MetaClient::waitForMetadReady(int count, int retryIntervalSecs) {
         ::sleep(retryIntervalSecs);
     }  // end while
 
+    std::lock_guard<std::mutex> g(bgThreadLock_);
     if (!isRunning_) {
         LOG(ERROR) << "Connect to the MetaServer Failed";
         return false;
@@ -106,12 +114,13 @@ bool MetaClient::waitForMetadReady(int count, int retryIntervalSecs) {
 
 
 void MetaClient::stop() {
+    std::lock_guard<std::mutex> g(bgThreadLock_);
+    isRunning_ = false;
     if (bgThread_ != nullptr) {
         bgThread_->stop();
         bgThread_->wait();
         bgThread_.reset();
     }
-    isRunning_ = false;
 }
 
 
diff --git a/src/common/clients/meta/MetaClient.h b/src/common/clients/meta/MetaClient.h
index 546fd2b..3637b70 100644
--- a/src/common/clients/meta/MetaClient.h
+++ b/src/common/clients/meta/MetaClient.h
@@ -752,6 +752,8 @@ private:
     HostAddr leader_;
     HostAddr localHost_;
 
+    // Orders stop() with what waitForMetadReady() does with the thread
+    std::mutex            bgThreadLock_;
     std::unique_ptr<thread::GenericWorker> bgThread_;
     SpaceNameIdMap        spaceIndexByName_;
     SpaceTagNameIdMap     spaceTagIndexByName_;
@@ -776,7 +778,7 @@ private:
     // The lock used to protect listener_
     folly::RWSpinLock     listenerLock_;
     std::atomic<ClusterID> clusterId_{0};
-    bool                  isRunning_{false};
+    std::atomic_bool      isRunning_{false};
     bool                  sendHeartBeat_{false};
     std::atomic_bool      ready_{false};
     MetaConfigMap         metaConfigMap_;
-- 
2.43.0


From 5760ad4600b678dfa0ce33ef2f4e1a2e240ed69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 035/100] fix: strings of nested options were quoted twice

The flag built from a nested option's map was no JSON, and the listener was
told the quoted values.
---
 src/common/clients/meta/MetaClient.cpp | 3 ++-
 src/common/meta/GflagsManager.cpp      | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 72e8721..73028f7 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3208,7 +3208,8 @@ void MetaClient::updateNestedGflags(const std::unordered_map<std::string, Value>
     }
     std::unordered_map<std::string, std::string> optionMap;
     for (const auto &value : nameValues) {
-        optionMap.emplace(value.first, value.second.toString());
+        optionMap.emplace(value.first, value.second.isStr() ? value.second.getStr()
+                                                            : value.second.toString());
     }
 
     folly::RWSpinLock::ReadHolder holder(localCacheLock_);
diff --git a/src/common/meta/GflagsManager.cpp b/src/common/meta/GflagsManager.cpp
index 5edd230..67d0e76 100644
--- a/src/common/meta/GflagsManager.cpp
+++ b/src/common/meta/GflagsManager.cpp
@@ -180,7 +180,10 @@ std::string GflagsManager::ValueToGflagString(const Value &val) {
             std::transform(kvs.begin(), kvs.end(), values.begin(),
                     [](const auto &iter) -> std::string {
                         std::stringstream out;
-                        out << "\"" << iter.first << "\"" << ":" << "\"" << iter.second << "\"";
+                        // Value::toString() quotes strings itself
+                        auto text = iter.second.isStr() ? iter.second.getStr()
+                                                        : iter.second.toString();
+                        out << "\"" << iter.first << "\"" << ":" << "\"" << text << "\"";
                         return out.str();
                     });
 
-- 
2.43.0


From c06973cbb6bdc91f7ede8898dbe1ec63d80d7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 036/100] fix: neighbours and properties of the caller's
 integer vertices were asked for by rewriting them

---
 src/common/clients/storage/StorageClientBase.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/storage/StorageClientBase.inl b/src/common/clients/storage/StorageClientBase.inl
index 14e0362..b6da9a1 100644
--- a/src/common/clients/storage/StorageClientBase.inl
+++ b/src/common/clients/storage/StorageClientBase.inl
@@ -329,14 +329,16 @@ StorageClientBase<ClientType>::clusterIdsToHosts(GraphSpaceID spaceId,
     }
     for (auto& id : ids) {
         CHECK(!!metaClient_);
-        status = metaClient_->partId(numParts, f(id));
+        // f may rewrite the id it is asked for, and the ids belong to the caller
+        auto item = id;
+        status = metaClient_->partId(numParts, f(item));
         if (!status.ok()) {
             return status.status();
         }
 
         auto part = status.value();
         const auto& leader = leaders[part];
-        clusters[leader][part].emplace_back(std::move(id));
+        clusters[leader][part].emplace_back(std::move(item));
     }
     return clusters;
 }
-- 
2.43.0


From d584aaf754ca3a8d0ac06b67996104dbfb2a1e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 037/100] fix: the leader of a failed storage request is
 forgotten before its caller goes on

---
 src/common/clients/storage/StorageClientBase.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/storage/StorageClientBase.inl b/src/common/clients/storage/StorageClientBase.inl
index b6da9a1..a790dc9 100644
--- a/src/common/clients/storage/StorageClientBase.inl
+++ b/src/common/clients/storage/StorageClientBase.inl
@@ -261,11 +261,11 @@ void StorageClientBase<ClientType>::getResponseImpl(
                     this] (folly::Try<Response>&& t) mutable {
             // exception occurred during RPC
             if (t.hasException()) {
+                invalidLeader(spaceId, partsId);
                 p.setValue(
                     Status::Error(
                         folly::stringPrintf("RPC failure in StorageClient: %s",
                                             t.exception().what().c_str())));
-                invalidLeader(spaceId, partsId);
                 return;
             }
             auto&& resp = std::move(t.value());
-- 
2.43.0


From 3231455f704660939ad5c215109c29615b1f241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 038/100] fix: the internal client takes the partition of a key
 from the number of partitions

---
 src/common/clients/storage/InternalStorageClient.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/storage/InternalStorageClient.cpp b/src/common/clients/storage/InternalStorageClient.cpp
index bf5f2aa..45f8f85 100644
--- a/src/common/clients/storage/InternalStorageClient.cpp
+++ b/src/common/clients/storage/InternalStorageClient.cpp
@@ -99,9 +99,13 @@ folly::SemiFuture<ErrOrVal> InternalStorageClient::getValue(size_t vIdLen,
                                                             folly::StringPiece key,
                                                             folly::EventBase* evb) {
     auto srcVid = key.subpiece(sizeof(PartitionID), vIdLen);
-    auto partId = metaClient_->partId(spaceId, srcVid.str());
-
     auto c = folly::makePromiseContract<ErrOrVal>();
+    auto numParts = metaClient_->partsNum(spaceId);
+    if (!numParts.ok()) {
+        c.first.setValue(nebula::cpp2::ErrorCode::E_SPACE_NOT_FOUND);
+        return std::move(c.second);
+    }
+    auto partId = metaClient_->partId(numParts.value(), srcVid.str());
     getValueImpl(spaceId, partId, key.str(), std::move(c.first), evb);
     return std::move(c.second);
 }
-- 
2.43.0


From e95734aca3bbab4c612603bae32d7a1672375803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 039/100] fix: a value of an unknown space is not reported as a
 missing partition

---
 src/common/clients/storage/InternalStorageClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/storage/InternalStorageClient.cpp b/src/common/clients/storage/InternalStorageClient.cpp
index 45f8f85..019eaed 100644
--- a/src/common/clients/storage/InternalStorageClient.cpp
+++ b/src/common/clients/storage/InternalStorageClient.cpp
@@ -118,7 +118,7 @@ void InternalStorageClient::getValueImpl(GraphSpaceID spaceId,
     std::pair<HostAddr, cpp2::GetValueRequest> req;
     auto stLeaderHost = getFuzzyLeader(spaceId, partId);
     if (!stLeaderHost.ok()) {
-        if (stLeaderHost.status().toString().find("partid")) {
+        if (stLeaderHost.status().toString().find("partid") != std::string::npos) {
             p.setValue(nebula::cpp2::ErrorCode::E_PART_NOT_FOUND);
         } else {
             p.setValue(nebula::cpp2::ErrorCode::E_SPACE_NOT_FOUND);
-- 
2.43.0


From 5c65b4cb1c94544f0352a9b0c8b40c855508045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 040/100] fix: do not ask the histogram for a percentile
 outside of 0..100

---
 src/common/stats/StatsManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/stats/StatsManager.cpp b/src/common/stats/StatsManager.cpp
index a22b0bc..80c2ebf 100644
--- a/src/common/stats/StatsManager.cpp
+++ b/src/common/stats/StatsManager.cpp
@@ -190,6 +190,11 @@ bool StatsManager::strToPct(folly::StringPiece part, double& pct) {
         if (len > 0 && len <= 6) {
             auto digits = folly::StringPiece(&(part[1]), len);
             pct = folly::to<double>(digits) / dividors[len - 1];
+            // Neither a NaN is a percentile
+            if (!(pct >= 0.0 && pct <= 100.0)) {
+                LOG(ERROR) << "Percentile " << part.toString() << " is out of range";
+                return false;
+            }
             return true;
         } else {
             LOG(ERROR) << "Precision " << part.toString() << " is too long";
-- 
2.43.0


From 45f9f333a4b7ef7c39f257deb45ab7119dbeab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 041/100] fix: answer 400 when the flags to set are missing or
 not an object

---
 src/common/webservice/SetFlagsHandler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/webservice/SetFlagsHandler.cpp b/src/common/webservice/SetFlagsHandler.cpp
index baa97a7..d9966aa 100644
--- a/src/common/webservice/SetFlagsHandler.cpp
+++ b/src/common/webservice/SetFlagsHandler.cpp
@@ -40,10 +40,14 @@ void SetFlagsHandler::onBody(std::unique_ptr<folly::IOBuf> body) noexcept {
 void SetFlagsHandler::onEOM() noexcept {
     folly::dynamic flags;
     try {
-        std::string body = body_->moveToFbString().toStdString();
-        flags = folly::parseJson(body);
-        if (flags.empty()) {
+        if (body_ == nullptr) {
             err_ = HttpCode::E_UNPROCESSABLE;
+        } else {
+            std::string body = body_->moveToFbString().toStdString();
+            flags = folly::parseJson(body);
+            if (!flags.isObject() || flags.empty()) {
+                err_ = HttpCode::E_UNPROCESSABLE;
+            }
         }
     } catch (const std::exception &e) {
         LOG(ERROR) << "Fail to update flags: " << e.what();
-- 
2.43.0


From 7e17adf40567b67f23e54c4ba797223ad568f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 042/100] fix: report a flag value that is not a scalar as a
 failed option

---
 src/common/webservice/SetFlagsHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/webservice/SetFlagsHandler.cpp b/src/common/webservice/SetFlagsHandler.cpp
index d9966aa..d661384 100644
--- a/src/common/webservice/SetFlagsHandler.cpp
+++ b/src/common/webservice/SetFlagsHandler.cpp
@@ -73,6 +73,10 @@ void SetFlagsHandler::onEOM() noexcept {
     folly::dynamic failedOptions = folly::dynamic::array();
     for (auto &item : flags.items()) {
         const std::string &name = item.first.asString();
+        if (item.second.isNull() || item.second.isArray() || item.second.isObject()) {
+            failedOptions.push_back(name);
+            continue;
+        }
         const std::string &value = item.second.asString();
         const std::string &newValue = gflags::SetCommandLineOption(name.c_str(), value.c_str());
         if (newValue.empty()) {
-- 
2.43.0


From e0aa2376e665a52a2e31305e0ff5bc288a07f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 043/100] fix: list an unknown flag in the verbose text without
 its details

---
 src/common/webservice/GetFlagsHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/webservice/GetFlagsHandler.cpp b/src/common/webservice/GetFlagsHandler.cpp
index bfe504b..7ff2b0d 100644
--- a/src/common/webservice/GetFlagsHandler.cpp
+++ b/src/common/webservice/GetFlagsHandler.cpp
@@ -193,7 +193,7 @@ std::string GetFlagsHandler::valToString(const folly::dynamic& val) {
 std::string GetFlagsHandler::toStr(const folly::dynamic& vals) {
     std::stringstream ss;
     for (auto& fi : vals) {
-        if (verbose_) {
+        if (verbose_ && fi.count("type") != 0) {
             ss << "--" << fi["name"].asString() << ": " << fi["description"].asString() << "\n";
             ss << "  file: " << fi["file"].asString() << ", type: " << fi["type"].asString()
                << ", default: " << valToString(fi["default"])
-- 
2.43.0


From d1a8af4ac756dcf1740b4c16487fad223b79e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 044/100] fix: give the flag values as strings which are no
 JSON numbers

---
 src/common/webservice/GetFlagsHandler.cpp | 27 +++++++++++++++++++----
 src/common/webservice/GetFlagsHandler.h   |  4 ++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/common/webservice/GetFlagsHandler.cpp b/src/common/webservice/GetFlagsHandler.cpp
index 7ff2b0d..4160343 100644
--- a/src/common/webservice/GetFlagsHandler.cpp
+++ b/src/common/webservice/GetFlagsHandler.cpp
@@ -11,6 +11,8 @@
 #include <folly/json.h>
 #include <proxygen/lib/http/ProxygenErrorEnum.h>
 #include <proxygen/httpserver/ResponseBuilder.h>
+#include <cmath>
+#include <limits>
 
 namespace nebula {
 
@@ -94,6 +96,19 @@ void GetFlagsHandler::onError(ProxygenError err) noexcept {
 }
 
 
+// static
+folly::dynamic GetFlagsHandler::numberOrString(double val, const std::string& str) {
+    return std::isfinite(val) ? folly::dynamic(val) : folly::dynamic(str);
+}
+
+
+// static
+folly::dynamic GetFlagsHandler::numberOrString(uint64_t val, const std::string& str) {
+    return val <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max())
+            ? folly::dynamic(val) : folly::dynamic(str);
+}
+
+
 void GetFlagsHandler::addOneFlag(folly::dynamic& vals,
                                  const std::string& flagname,
                                  const gflags::CommandLineFlagInfo* info) {
@@ -117,9 +132,11 @@ void GetFlagsHandler::addOneFlag(folly::dynamic& vals,
                 flag["default"] = folly::to<int64_t>(info->default_value);
             }
         } else if (type == "uint64") {
-            flag["value"] = folly::to<uint64_t>(info->current_value);
+            flag["value"] = numberOrString(
+                folly::to<uint64_t>(info->current_value), info->current_value);
             if (verbose_) {
-                flag["default"] = folly::to<uint64_t>(info->default_value);
+                flag["default"] = numberOrString(
+                    folly::to<uint64_t>(info->default_value), info->default_value);
             }
         } else if (type == "bool") {
             flag["value"] = folly::to<bool>(info->current_value);
@@ -127,9 +144,11 @@ void GetFlagsHandler::addOneFlag(folly::dynamic& vals,
                 flag["default"] = folly::to<bool>(info->default_value);
             }
         } else if (type == "double") {
-            flag["value"] = folly::to<double>(info->current_value);
+            flag["value"] = numberOrString(
+                folly::to<double>(info->current_value), info->current_value);
             if (verbose_) {
-                flag["default"] = folly::to<double>(info->default_value);
+                flag["default"] = numberOrString(
+                    folly::to<double>(info->default_value), info->default_value);
             }
         } else if (type == "string") {
             flag["value"] = info->current_value;
diff --git a/src/common/webservice/GetFlagsHandler.h b/src/common/webservice/GetFlagsHandler.h
index 7b32a71..7fbc5c2 100644
--- a/src/common/webservice/GetFlagsHandler.h
+++ b/src/common/webservice/GetFlagsHandler.h
@@ -40,6 +40,10 @@ private:
 
     static std::string valToString(const folly::dynamic& val);
 
+    // The numbers which a JSON number does not cover are given as strings
+    static folly::dynamic numberOrString(double val, const std::string& str);
+    static folly::dynamic numberOrString(uint64_t val, const std::string& str);
+
 private:
     HttpCode err_{HttpCode::SUCCEEDED};
     bool verbose_{false};
-- 
2.43.0


From c15f3fd7351bb106efbd2b0efd17a0585ab74668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 045/100] fix: answer a request of an unknown method instead of
 throwing

---
 src/common/webservice/Router.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/webservice/Router.cpp b/src/common/webservice/Router.cpp
index edf8b26..7e2bc60 100644
--- a/src/common/webservice/Router.cpp
+++ b/src/common/webservice/Router.cpp
@@ -104,8 +104,10 @@ proxygen::RequestHandler *Route::generateHandler(const std::string &path) const
 }
 
 proxygen::RequestHandler *Router::dispatch(const proxygen::HTTPMessage *msg) const {
-    for (Route *r = head_; r != nullptr; r = r->next()) {
-        if (r->matches(msg->getMethod().value(), msg->getPath())) {
+    auto method = msg->getMethod();
+    // An unknown method matches no route
+    for (Route *r = method ? head_ : nullptr; r != nullptr; r = r->next()) {
+        if (r->matches(*method, msg->getPath())) {
             return r->generateHandler(msg->getPath());
         }
     }
-- 
2.43.0


From c9b6d3c9197be0453f29db159fce537b82205141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 046/100] fix: release the status handler when its request
 fails

---
 src/common/webservice/StatusHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/webservice/StatusHandler.cpp b/src/common/webservice/StatusHandler.cpp
index 5cfb2a8..96fafd6 100644
--- a/src/common/webservice/StatusHandler.cpp
+++ b/src/common/webservice/StatusHandler.cpp
@@ -64,6 +64,7 @@ void StatusHandler::requestComplete() noexcept {
 void StatusHandler::onError(ProxygenError error) noexcept {
     LOG(ERROR) << "Web service StorageHttpHandler got error: "
                << proxygen::getErrorString(error);
+    delete this;
 }
 
 folly::dynamic StatusHandler::getStatus() {
-- 
2.43.0


From 6980263d074f4475c03403d934e2b0a3310812ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 047/100] fix: a web service which was never started can be
 destroyed

---
 src/common/webservice/WebService.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/webservice/WebService.cpp b/src/common/webservice/WebService.cpp
index d7b9df4..df474d8 100644
--- a/src/common/webservice/WebService.cpp
+++ b/src/common/webservice/WebService.cpp
@@ -57,8 +57,10 @@ WebService::WebService(const std::string& name) {
 }
 
 WebService::~WebService() {
-    server_->stop();
-    wsThread_->join();
+    if (wsThread_ != nullptr) {
+        server_->stop();
+        wsThread_->join();
+    }
 }
 
 Status WebService::start() {
-- 
2.43.0


From 7372ebb7a680876e07455134d98ffbb0f34df050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 048/100] fix: a web service which failed to start is not
 started

---
 src/common/webservice/WebService.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/common/webservice/WebService.cpp b/src/common/webservice/WebService.cpp
index df474d8..c144e7f 100644
--- a/src/common/webservice/WebService.cpp
+++ b/src/common/webservice/WebService.cpp
@@ -90,8 +90,6 @@ Status WebService::start() {
         return new StatusHandler();
     });
 
-    started_ = true;
-
     std::vector<HTTPServer::IPConfig> ips = {
         {SocketAddress(FLAGS_ws_ip, FLAGS_ws_http_port, true), HTTPServer::Protocol::HTTP},
         {SocketAddress(FLAGS_ws_ip, FLAGS_ws_h2_port, true), HTTPServer::Protocol::HTTP2},
@@ -160,11 +158,18 @@ Status WebService::start() {
             return serverStartedDone;
         });
 
-        if (!status.ok()) {
-            LOG(ERROR) << "Failed to start web service: " << status;
-            return status;
-        }
     }
+
+    if (!status.ok()) {
+        LOG(ERROR) << "Failed to start web service: " << status;
+        // The server is stopped already, so that it could be started once more
+        wsThread_->join();
+        wsThread_.reset();
+        server_.reset();
+        return status;
+    }
+
+    started_ = true;
     return status;
 }
 
-- 
2.43.0


From 40007038ce596b44d7fbb8b936f96cc634e707b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 049/100] fix: do not notify a condition variable which may be
 gone

---
 src/common/webservice/WebService.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/common/webservice/WebService.cpp b/src/common/webservice/WebService.cpp
index c144e7f..08a5685 100644
--- a/src/common/webservice/WebService.cpp
+++ b/src/common/webservice/WebService.cpp
@@ -131,10 +131,9 @@ Status WebService::start() {
                     LOG(INFO) << "Web service started on "
                               << "HTTP[" << FLAGS_ws_http_port << "], "
                               << "HTTP2[" << FLAGS_ws_h2_port << "]";
-                    {
-                        std::lock_guard<std::mutex> g(mut);
-                        serverStartedDone = true;
-                    }
+                    std::lock_guard<std::mutex> g(mut);
+                    serverStartedDone = true;
+                    // Notify with the lock held, "cv" is gone as soon as the waiter returns
                     cv.notify_all();
                 },
                 [&] (std::exception_ptr eptr) {
@@ -144,10 +143,9 @@ Status WebService::start() {
                     } catch (const std::exception &e) {
                         status = Status::Error("%s", e.what());
                     }
-                    {
-                        std::lock_guard<std::mutex> g(mut);
-                        serverStartedDone = true;
-                    }
+                    std::lock_guard<std::mutex> g(mut);
+                    serverStartedDone = true;
+                    // Notify with the lock held, "cv" is gone as soon as the waiter returns
                     cv.notify_all();
                 });
     });
-- 
2.43.0


From be1f0dbe686f92ed1a0103d509f380bf167ebae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 050/100] fix: report a command which failed as failed

---
 src/common/process/ProcessUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index 537385d..852418b 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -7,6 +7,7 @@
 #include "common/base/Base.h"
 #include "common/process/ProcessUtils.h"
 #include <signal.h>
+#include <sys/wait.h>
 #include "common/base/Cord.h"
 #include "common/fs/FileUtils.h"
 
@@ -174,7 +175,10 @@ StatusOr<std::string> ProcessUtils::runCommand(const char* command) {
         return Status::Error("Failed to read the output of the command");
     }
 
-    pclose(f);
+    auto status = pclose(f);
+    if (status == -1 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
+        return Status::Error("The command \"%s\" failed", command);
+    }
     return out.str();
 }
 
-- 
2.43.0


From 96f73a915ed6a69d56f5be3711209939a9e25974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 051/100] fix: read the whole configuration file or fail

---
 src/common/conf/Configuration.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 42c25e3..32474ba 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -37,22 +37,28 @@ Status Configuration::parseFromFile(const std::string &filename) {
             status = Status::Error("Unknown error");
             break;
         }
-        // get the file size
-        auto len = ::lseek(fd, 0, SEEK_END);
-        if (len == 0) {
+        // read the whole content
+        std::string buffer;
+        char chunk[4096];
+        ssize_t charsRead;
+        while ((charsRead = ::read(fd, chunk, sizeof(chunk))) != 0) {
+            if (charsRead > 0) {
+                buffer.append(chunk, charsRead);
+            } else if (errno != EINTR) {
+                break;
+            }
+        }
+        if (charsRead < 0) {
+            status = Status::Error("Failed to read file \"%s\"", filename.c_str());
+            break;
+        }
+        if (buffer.empty()) {
             status = Status::Error("File \"%s\"is empty", filename.c_str());
             break;
         }
-        ::lseek(fd, 0, SEEK_SET);
-        // read the whole content
-        // TODO(dutor) ::read might be interrupted by signals
-        auto buffer = std::make_unique<char[]>(len + 1);
-        auto charsRead = ::read(fd, buffer.get(), len);
-        UNUSED(charsRead);
-        buffer[len] = '\0';
         // strip off all comments
         static const std::regex comment("//.*|#.*");
-        content = std::regex_replace(buffer.get(), comment, "");
+        content = std::regex_replace(buffer, comment, "");
     } while (false);
 
     if (fd != -1) {
-- 
2.43.0


From 20ae7c07e66f3c0e90b9bdbd5d4e49baded84cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 052/100] fix: refuse a configuration which is not an object

---
 src/common/conf/Configuration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 32474ba..40f733b 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -76,6 +76,9 @@ Status Configuration::parseFromFile(const std::string &filename) {
 Status Configuration::parseFromString(const std::string &content) {
     try {
         auto json = folly::parseJson(content);
+        if (!json.isObject()) {
+            return Status::Error("The content is not a valid configuration");
+        }
         content_ = std::make_unique<folly::dynamic>(std::move(json));
     } catch (std::exception &e) {
         LOG(ERROR) << e.what();
-- 
2.43.0


From 64ec045c43b297f0cde1c313374ff852ef3da58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 053/100] fix: do not take // or # within a string for a
 comment

---
 src/common/conf/Configuration.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 40f733b..d7a6f59 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -9,6 +9,32 @@
 namespace nebula {
 namespace conf {
 
+// Strip off the comments, `//' or `#' to the end of the line, but not within a string
+static std::string stripComments(const std::string &content) {
+    std::string result;
+    bool inString = false;
+    for (size_t i = 0; i < content.size(); i++) {
+        if (inString) {
+            if (content[i] == '\\' && i + 1 < content.size()) {
+                result += content[i++];
+            } else if (content[i] == '"') {
+                inString = false;
+            }
+        } else if (content[i] == '#' || content.compare(i, 2, "//") == 0) {
+            while (i < content.size() && content[i] != '\n' && content[i] != '\r') {
+                i++;
+            }
+            if (i == content.size()) {
+                break;
+            }
+        } else if (content[i] == '"') {
+            inString = true;
+        }
+        result += content[i];
+    }
+    return result;
+}
+
 Configuration::Configuration() {
     content_ = std::make_unique<folly::dynamic>(folly::dynamic::object());
 }
@@ -57,8 +83,7 @@ Status Configuration::parseFromFile(const std::string &filename) {
             break;
         }
         // strip off all comments
-        static const std::regex comment("//.*|#.*");
-        content = std::regex_replace(buffer, comment, "");
+        content = stripComments(buffer);
     } while (false);
 
     if (fd != -1) {
-- 
2.43.0


From f223cc51beb96f84ca1f3056e778a977dd984261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 054/100] fix: do not cut a character of a value to be indexed

---
 src/common/plugin/fulltext/FTUtils.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/plugin/fulltext/FTUtils.h b/src/common/plugin/fulltext/FTUtils.h
index 7231965..a5daef1 100644
--- a/src/common/plugin/fulltext/FTUtils.h
+++ b/src/common/plugin/fulltext/FTUtils.h
@@ -170,7 +170,15 @@ struct DocIDTraits {
     }
 
     static std::string val(const std::string &v) {
-        return ((v.size() > MAX_INDEX_TYPE_LENGTH) ? v.substr(0, MAX_INDEX_TYPE_LENGTH) : v);
+        if (v.size() <= MAX_INDEX_TYPE_LENGTH) {
+            return v;
+        }
+        // do not cut a UTF-8 character, which has up to three bytes after the first
+        size_t len = MAX_INDEX_TYPE_LENGTH;
+        while (len > MAX_INDEX_TYPE_LENGTH - 3 && (v[len] & 0xC0) == 0x80) {
+            len--;
+        }
+        return v.substr(0, len);
     }
 
     static std::string normalizedJson(const std::string &v) {
-- 
2.43.0


From 69ec9fe57c612f900114a49e2d532dded15942f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 055/100] fix: quote the user and the password given to curl

---
 src/common/plugin/fulltext/FTUtils.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/plugin/fulltext/FTUtils.h b/src/common/plugin/fulltext/FTUtils.h
index a5daef1..bcf0ca4 100644
--- a/src/common/plugin/fulltext/FTUtils.h
+++ b/src/common/plugin/fulltext/FTUtils.h
@@ -81,10 +81,8 @@ struct HttpClient {
     std::string toString() const {
         std::stringstream os;
         if (!user.empty()) {
-            os << " -u " << user;
-            if (!password.empty()) {
-                os << ":" << password;
-            }
+            auto login = password.empty() ? user : user + ":" + password;
+            os << " -u '" << boost::replace_all_copy(login, "'", ESCAPE_SINGLE_QUOTE) << "'";
         }
         os << " \"http://" << host.host << ":" << host.port << "/";
         return os.str();
-- 
2.43.0


From 4114290666ba8b19d68ecb1db91b6dbdc6200d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 056/100] fix: escape the name of a full-text index

---
 src/common/plugin/fulltext/FTUtils.h              | 15 +++++++++++++++
 .../fulltext/elasticsearch/ESGraphAdapter.cpp     |  8 ++++----
 .../fulltext/elasticsearch/ESStorageAdapter.cpp   |  6 ++++--
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/common/plugin/fulltext/FTUtils.h b/src/common/plugin/fulltext/FTUtils.h
index bcf0ca4..e8bed5b 100644
--- a/src/common/plugin/fulltext/FTUtils.h
+++ b/src/common/plugin/fulltext/FTUtils.h
@@ -183,6 +183,21 @@ struct DocIDTraits {
         return boost::replace_all_copy(v, "'", ESCAPE_SINGLE_QUOTE);
     }
 
+    // The index as a part of an url, with every character escaped
+    // which means something to the shell, to curl or in an url
+    static std::string indexUrl(const std::string &index) {
+        std::stringstream ss;
+        ss << std::uppercase << std::hex << std::setfill('0');
+        for (unsigned char c : index) {
+            if (isascii(c) && (isalnum(c) || c == '-' || c == '.' || c == '_' || c == '~')) {
+                ss << c;
+            } else {
+                ss << '%' << std::setw(2) << static_cast<int>(c);
+            }
+        }
+        return ss.str();
+    }
+
     static std::string docId(const DocItem& item) {
         // partId_column_value,
         // The value length limit is 255 bytes
diff --git a/src/common/plugin/fulltext/elasticsearch/ESGraphAdapter.cpp b/src/common/plugin/fulltext/elasticsearch/ESGraphAdapter.cpp
index 2e1fbde..47c946a 100644
--- a/src/common/plugin/fulltext/elasticsearch/ESGraphAdapter.cpp
+++ b/src/common/plugin/fulltext/elasticsearch/ESGraphAdapter.cpp
@@ -84,7 +84,7 @@ std::string ESGraphAdapter::header(const HttpClient& client,
     //    -XGET http://127.0.0.1:9200/my_temp_index_3/_search?timeout=10ms
     std::stringstream os;
     os << CURL << CURL_CONTENT_JSON << XGET;
-    os << client.toString() << item.index << "/_search?timeout=" << limit.timeout_ << "ms" << "\"";
+    os << client.toString() << DocIDTraits::indexUrl(item.index) << "/_search?timeout=" << limit.timeout_ << "ms" << "\"";
     return os.str();
 }
 
@@ -176,7 +176,7 @@ StatusOr<bool> ESGraphAdapter::createIndex(const HttpClient& client,
 std::string ESGraphAdapter::createIndexCmd(const HttpClient& client,
     const std::string& index, const std::string&) const noexcept {
     std::stringstream os;
-    os << header() << XPUT << client.toString() << index << "\"";
+    os << header() << XPUT << client.toString() << DocIDTraits::indexUrl(index) << "\"";
     return os.str();
 }
 
@@ -196,7 +196,7 @@ StatusOr<bool> ESGraphAdapter::dropIndex(const HttpClient& client,
 std::string ESGraphAdapter::dropIndexCmd(const HttpClient& client,
     const std::string& index) const noexcept {
     std::stringstream os;
-    os << header() << XDELETE << client.toString() << index << "\"";
+    os << header() << XDELETE << client.toString() << DocIDTraits::indexUrl(index) << "\"";
     return os.str();
 }
 
@@ -217,7 +217,7 @@ std::string ESGraphAdapter::indexExistsCmd(const HttpClient& client,
                                            const std::string& index) const noexcept {
     std::stringstream os;
     os << header() << XGET << client.toString()
-       << "_cat/indices/" << index << "?format=json" << "\"";
+       << "_cat/indices/" << DocIDTraits::indexUrl(index) << "?format=json" << "\"";
     return os.str();
 }
 
diff --git a/src/common/plugin/fulltext/elasticsearch/ESStorageAdapter.cpp b/src/common/plugin/fulltext/elasticsearch/ESStorageAdapter.cpp
index d20cb3f..cd8d772 100644
--- a/src/common/plugin/fulltext/elasticsearch/ESStorageAdapter.cpp
+++ b/src/common/plugin/fulltext/elasticsearch/ESStorageAdapter.cpp
@@ -149,7 +149,8 @@ std::string ESStorageAdapter::putHeader(const HttpClient& client,
     //    -XPUT "http://127.0.0.1:9200/my_temp_index_3/_doc/part1|tag4|col4|hello"
     std::stringstream os;
     os << CURL << CURL_CONTENT_JSON << XPUT;
-    os << client.toString() << item.index << "/_doc/" << DocIDTraits::docId(item) << "\"";
+    os << client.toString() << DocIDTraits::indexUrl(item.index)
+       << "/_doc/" << DocIDTraits::docId(item) << "\"";
     return os.str();
 }
 
@@ -194,7 +195,8 @@ std::string ESStorageAdapter::bulkBody(const std::vector<DocItem>& items) const
                                                     ("_index", item.index);
         folly::dynamic data = folly::dynamic::object("value", DocIDTraits::val(item.val))
                                                     ("column_id", DocIDTraits::column(item.column));
-        os << folly::toJson(folly::dynamic::object("index", meta)) << "\n";
+        os << DocIDTraits::normalizedJson(folly::toJson(folly::dynamic::object("index", meta)))
+           << "\n";
         os << DocIDTraits::normalizedJson(folly::toJson(data)) << "\n";
     }
     os << "'";
-- 
2.43.0


From f70bdbe1c9d2bd2a2757b1aec433e7c6d5455c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 057/100] fix: escape what the shell would expand in the url
 given to curl

---
 src/common/http/HttpClient.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/common/http/HttpClient.cpp b/src/common/http/HttpClient.cpp
index c2384ad..7c5fcd3 100644
--- a/src/common/http/HttpClient.cpp
+++ b/src/common/http/HttpClient.cpp
@@ -10,8 +10,20 @@
 namespace nebula {
 namespace http {
 
+// The url as a word of a shell command
+static std::string quoteUrl(const std::string& url) {
+    std::string quoted = "\"";
+    for (auto c : url) {
+        if (c == '"' || c == '$' || c == '`' || c == '\\') {
+            quoted += '\\';
+        }
+        quoted += c;
+    }
+    return quoted + "\"";
+}
+
 StatusOr<std::string> HttpClient::get(const std::string& path, const std::string& options) {
-    auto command = folly::stringPrintf("/usr/bin/curl %s \"%s\"", options.c_str(), path.c_str());
+    auto command = folly::stringPrintf("/usr/bin/curl %s %s", options.c_str(), quoteUrl(path).c_str());
     LOG(INFO) << "HTTP Get Command: " << command;
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -23,7 +35,7 @@ StatusOr<std::string> HttpClient::get(const std::string& path, const std::string
 
 StatusOr<std::string> HttpClient::post(const std::string& path, const std::string& header) {
     auto command =
-        folly::stringPrintf("/usr/bin/curl -X POST %s \"%s\"", header.c_str(), path.c_str());
+        folly::stringPrintf("/usr/bin/curl -X POST %s %s", header.c_str(), quoteUrl(path).c_str());
     LOG(INFO) << "HTTP POST Command: " << command;
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -59,7 +71,7 @@ StatusOr<std::string> HttpClient::put(const std::string& path,
 
 StatusOr<std::string> HttpClient::put(const std::string& path, const std::string& header) {
     auto command =
-        folly::stringPrintf("/usr/bin/curl -X PUT %s \"%s\"", header.c_str(), path.c_str());
+        folly::stringPrintf("/usr/bin/curl -X PUT %s %s", header.c_str(), quoteUrl(path).c_str());
     LOG(INFO) << "HTTP PUT Command: " << command;
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -78,13 +90,13 @@ StatusOr<std::string> HttpClient::sendRequest(const std::string& path,
                                               const std::string& reqType) {
     std::string command;
     if (data.empty()) {
-        command = folly::stringPrintf("curl -X %s -s \"%s\"", reqType.c_str(), path.c_str());
+        command = folly::stringPrintf("curl -X %s -s %s", reqType.c_str(), quoteUrl(path).c_str());
     } else {
         command =
-            folly::stringPrintf("curl -X %s -H \"Content-Type: application/json\" -d'%s' -s \"%s\"",
+            folly::stringPrintf("curl -X %s -H \"Content-Type: application/json\" -d'%s' -s %s",
                                 reqType.c_str(),
                                 folly::toJson(data).c_str(),
-                                path.c_str());
+                                quoteUrl(path).c_str());
     }
     LOG(INFO) << folly::stringPrintf("HTTP %s Command: %s", reqType.c_str(), command.c_str());
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
-- 
2.43.0


From 1a79d5be72dd5ce5f2edc8506360678ba7f88b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 058/100] fix: escape the single quotes of the data given to
 curl

---
 src/common/http/HttpClient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/http/HttpClient.cpp b/src/common/http/HttpClient.cpp
index 7c5fcd3..0238abe 100644
--- a/src/common/http/HttpClient.cpp
+++ b/src/common/http/HttpClient.cpp
@@ -4,6 +4,7 @@
  * attached with Common Clause Condition 1.0, found in the LICENSES directory.
  */
 
+#include <boost/algorithm/string/replace.hpp>
 #include "common/http/HttpClient.h"
 #include "common/process/ProcessUtils.h"
 
@@ -92,10 +93,11 @@ StatusOr<std::string> HttpClient::sendRequest(const std::string& path,
     if (data.empty()) {
         command = folly::stringPrintf("curl -X %s -s %s", reqType.c_str(), quoteUrl(path).c_str());
     } else {
+        auto body = boost::replace_all_copy(folly::toJson(data), "'", "'\\''");
         command =
             folly::stringPrintf("curl -X %s -H \"Content-Type: application/json\" -d'%s' -s %s",
                                 reqType.c_str(),
-                                folly::toJson(data).c_str(),
+                                body.c_str(),
                                 quoteUrl(path).c_str());
     }
     LOG(INFO) << folly::stringPrintf("HTTP %s Command: %s", reqType.c_str(), command.c_str());
-- 
2.43.0


From 64eff1a16c4a0b61af9ce01062cb3d3100f8713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 059/100] fix: quote the paths given to hdfs

---
 src/common/hdfs/HdfsCommandHelper.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/common/hdfs/HdfsCommandHelper.cpp b/src/common/hdfs/HdfsCommandHelper.cpp
index b1c674c..8a73769 100644
--- a/src/common/hdfs/HdfsCommandHelper.cpp
+++ b/src/common/hdfs/HdfsCommandHelper.cpp
@@ -4,17 +4,23 @@
  * attached with Common Clause Condition 1.0, found in the LICENSES directory.
  */
 
+#include <boost/algorithm/string/replace.hpp>
 #include "common/hdfs/HdfsCommandHelper.h"
 #include "common/process/ProcessUtils.h"
 
 namespace nebula {
 namespace hdfs {
 
+// The argument as a word of a shell command
+static std::string quote(const std::string& arg) {
+    return "'" + boost::replace_all_copy(arg, "'", "'\\''") + "'";
+}
+
 StatusOr<std::string> HdfsCommandHelper::ls(const std::string& hdfsHost,
                                             int32_t hdfsPort,
                                             const std::string& hdfsPath) {
-    auto command = folly::stringPrintf("hdfs dfs -ls hdfs://%s:%d%s",
-                                       hdfsHost.c_str(), hdfsPort, hdfsPath.c_str());
+    auto url = folly::stringPrintf("hdfs://%s:%d%s", hdfsHost.c_str(), hdfsPort, hdfsPath.c_str());
+    auto command = folly::stringPrintf("hdfs dfs -ls %s", quote(url).c_str());
     LOG(INFO) << "Running HDFS Command: " << command;
     auto result = ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -28,9 +34,9 @@ StatusOr<std::string> HdfsCommandHelper::copyToLocal(const std::string& hdfsHost
                                                      int32_t hdfsPort,
                                                      const std::string& hdfsPath,
                                                      const std::string& localPath) {
-    auto command = folly::stringPrintf("hdfs dfs -copyToLocal hdfs://%s:%d%s %s",
-                                       hdfsHost.c_str(), hdfsPort, hdfsPath.c_str(),
-                                       localPath.c_str());
+    auto url = folly::stringPrintf("hdfs://%s:%d%s", hdfsHost.c_str(), hdfsPort, hdfsPath.c_str());
+    auto command = folly::stringPrintf("hdfs dfs -copyToLocal %s %s",
+                                       quote(url).c_str(), quote(localPath).c_str());
     LOG(INFO) << "Running HDFS Command: " << command;
     auto result = ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
-- 
2.43.0


From 5cd762ad6b828d49be72d2cb6c53bb30c6ae45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 060/100] fix: do not ask a failed download for its answer

---
 src/common/clients/meta/MetaClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 73028f7..2a39a1d 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3812,7 +3812,8 @@ folly::Future<StatusOr<bool>> MetaClient::download(const std::string& hdfsHost,
             LOG(INFO) << "Download Successfully";
             return true;
         } else {
-            LOG(ERROR) << "Download Failed: " << result.value();
+            LOG(ERROR) << "Download Failed: "
+                       << (result.ok() ? result.value() : result.status().toString());
             return false;
         }
     };
-- 
2.43.0


From ba3c59fefdcf4d760272699547ee1bcfc4a198df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:04 +0000
Subject: [PATCH 061/100] fix: read the leader to download or ingest from under
 its lock

---
 src/common/clients/meta/MetaClient.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 2a39a1d..faa6b01 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3802,9 +3802,14 @@ folly::Future<StatusOr<bool>> MetaClient::download(const std::string& hdfsHost,
                                                    int32_t hdfsPort,
                                                    const std::string& hdfsPath,
                                                    GraphSpaceID spaceId) {
+    HostAddr leader;
+    {
+        folly::RWSpinLock::ReadHolder holder(hostLock_);
+        leader = leader_;
+    }
     auto url = folly::stringPrintf(
             "http://%s:%d/download-dispatch?host=%s&port=%d&path=%s&space=%d",
-            leader_.host.c_str(), FLAGS_ws_meta_http_port,
+            leader.host.c_str(), FLAGS_ws_meta_http_port,
             hdfsHost.c_str(), hdfsPort, hdfsPath.c_str(), spaceId);
     auto func = [url] {
         auto result = http::HttpClient::get(url);
@@ -3821,8 +3826,13 @@ folly::Future<StatusOr<bool>> MetaClient::download(const std::string& hdfsHost,
 }
 
 folly::Future<StatusOr<bool>> MetaClient::ingest(GraphSpaceID spaceId) {
+    HostAddr leader;
+    {
+        folly::RWSpinLock::ReadHolder holder(hostLock_);
+        leader = leader_;
+    }
     auto url = folly::stringPrintf("http://%s:%d/ingest-dispatch?space=%d",
-                                   leader_.host.c_str(), FLAGS_ws_meta_http_port, spaceId);
+                                   leader.host.c_str(), FLAGS_ws_meta_http_port, spaceId);
     auto func = [url] {
         auto result = http::HttpClient::get(url);
         if (result.ok() && result.value() == "SSTFile ingest successfully") {
-- 
2.43.0


From 3f987b27fb663b72e5fd4e8d4f22521f588ef799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 062/100] fix: skip devices without an address when listing
 devices

---
 src/common/network/NetworkUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/network/NetworkUtils.cpp b/src/common/network/NetworkUtils.cpp
index dc1d758..c8bc26c 100644
--- a/src/common/network/NetworkUtils.cpp
+++ b/src/common/network/NetworkUtils.cpp
@@ -69,8 +69,8 @@ StatusOr<std::unordered_map<std::string, std::string>> NetworkUtils::listDeviceA
         return Status::Error("%s", ::strerror(errno));
     }
     for (auto *ifa = iflist; ifa != nullptr; ifa = ifa->ifa_next) {
-        // Skip non-IPv4 devices
-        if (ifa->ifa_addr->sa_family != AF_INET) {
+        // Skip non-IPv4 devices, a device may have no address at all
+        if (ifa->ifa_addr == nullptr || ifa->ifa_addr->sa_family != AF_INET) {
             continue;
         }
         auto *addr = reinterpret_cast<struct sockaddr_in*>(ifa->ifa_addr);
-- 
2.43.0


From 29c803918bc9013dbf39ea00bcdcb5f0f55095f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 063/100] fix: list all IPv4 addresses of a device

---
 src/common/network/NetworkUtils.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/common/network/NetworkUtils.cpp b/src/common/network/NetworkUtils.cpp
index c8bc26c..5e4fe7a 100644
--- a/src/common/network/NetworkUtils.cpp
+++ b/src/common/network/NetworkUtils.cpp
@@ -48,16 +48,23 @@ StatusOr<std::string> NetworkUtils::getIPv4FromDevice(const std::string &device)
 
 
 StatusOr<std::vector<std::string>> NetworkUtils::listIPv4s() {
-    auto result = listDeviceAndIPv4s();
-    if (!result.ok()) {
-        return std::move(result).status();
-    }
-    auto getval = [] (const auto &entry) {
-        return entry.second;
-    };
+    struct ifaddrs *iflist;
     std::vector<std::string> ipv4s;
-    ipv4s.resize(result.value().size());
-    std::transform(result.value().begin(), result.value().end(), ipv4s.begin(), getval);
+    if (::getifaddrs(&iflist) != 0) {
+        return Status::Error("%s", ::strerror(errno));
+    }
+    // A device may have several addresses
+    for (auto *ifa = iflist; ifa != nullptr; ifa = ifa->ifa_next) {
+        if (ifa->ifa_addr == nullptr || ifa->ifa_addr->sa_family != AF_INET) {
+            continue;
+        }
+        auto *addr = reinterpret_cast<struct sockaddr_in*>(ifa->ifa_addr);
+        ipv4s.emplace_back(::inet_ntoa(addr->sin_addr));
+    }
+    ::freeifaddrs(iflist);
+    if (ipv4s.empty()) {
+        return Status::Error("No IPv4 devices found");
+    }
     return ipv4s;
 }
 
-- 
2.43.0


From 0319526acdcfaa164de317f8843f362ed1e58446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 064/100] fix: do not take a part of the dynamic port range for
 it

---
 src/common/network/NetworkUtils.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/network/NetworkUtils.cpp b/src/common/network/NetworkUtils.cpp
index 5e4fe7a..95d0ec9 100644
--- a/src/common/network/NetworkUtils.cpp
+++ b/src/common/network/NetworkUtils.cpp
@@ -101,7 +101,14 @@ bool NetworkUtils::getDynamicPortRange(uint16_t& low, uint16_t& high) {
         return false;
     }
 
-    if (fscanf(pipe, "%hu %hu", &low, &high) != 2) {
+    bool read = fscanf(pipe, "%hu %hu", &low, &high) == 2 && !ferror(pipe);
+    auto status = pclose(pipe);
+    if (status < 0) {
+        LOG(ERROR) << "Failed to close the pipe: " << strerror(errno);
+        return false;
+    }
+
+    if (!read || status != 0) {
         LOG(ERROR) << "Failed to read from /proc/sys/net/ipv4/ip_local_port_range";
         // According to ICANN, the port range is devided into three sections
         //
@@ -112,11 +119,6 @@ bool NetworkUtils::getDynamicPortRange(uint16_t& low, uint16_t& high) {
         high = 65535;
     }
 
-    if (pclose(pipe) < 0) {
-        LOG(ERROR) << "Failed to close the pipe: " << strerror(errno);
-        return false;
-    }
-
     return true;
 }
 
-- 
2.43.0


From 7d68f1b1ff352e638188e1974b52ae5e35f3e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 065/100] fix: find a port when the dynamic ports begin at the
 first unprivileged one

---
 src/common/network/NetworkUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/network/NetworkUtils.cpp b/src/common/network/NetworkUtils.cpp
index 95d0ec9..8d49212 100644
--- a/src/common/network/NetworkUtils.cpp
+++ b/src/common/network/NetworkUtils.cpp
@@ -186,6 +186,10 @@ uint16_t NetworkUtils::getAvailablePort() {
     CHECK(getDynamicPortRange(low, high))
         << "Failed to get the dynamic port range";
     VLOG(1) << "Dynamic port range is [" << low << ", " << high << "]";
+    if (low < 1027) {
+        // There is no room for two ports below the range
+        low = 65535;
+    }
 
     std::unordered_set<uint16_t> portsInUse = getPortsInUse();
     uint16_t port = 0;
-- 
2.43.0


From 7cb40c1de29833e031ea9774e4270aa14bf04d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 066/100] fix: keep the beginning of a status message of 64 KiB
 and more

---
 src/common/base/Status.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index 2e9ad75..b5df277 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -10,7 +10,8 @@
 namespace nebula {
 
 Status::Status(Code code, folly::StringPiece msg) {
-    const uint16_t size = msg.size();
+    // The length is kept in 16 bits
+    const uint16_t size = std::min<size_t>(msg.size(), std::numeric_limits<uint16_t>::max());
     auto state = std::unique_ptr<char[]>(new char[size + kHeaderSize]);
     auto *header = reinterpret_cast<Header*>(state.get());
     header->size_ = size;
-- 
2.43.0


From 7d932a96b4a60d39e95e144d06dbc27ba01c3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 067/100] fix: separate the message of ListenerNotFound from
 its name

---
 src/common/base/Status.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index b5df277..5b80783 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -98,7 +98,7 @@ const char *Status::toString(Code code) {
         case kPermissionError:
             return "PermissionError: ";
         case kListenerNotFound:
-            return "ListenerNotFound";
+            return "ListenerNotFound: ";
     }
     DLOG(FATAL) << "Invalid status code: " << static_cast<uint16_t>(code);
     return "";
-- 
2.43.0


From 9fa906b8e244dbb931bf0978bf959332c179c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 068/100] fix: let a StatusOr be assigned the value it holds

---
 src/common/base/StatusOr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/base/StatusOr.h b/src/common/base/StatusOr.h
index fa5a85c..a3cc7a7 100644
--- a/src/common/base/StatusOr.h
+++ b/src/common/base/StatusOr.h
@@ -195,8 +195,10 @@ public:
     // Move assigment operator from a rvalue of any compatible type with `T'
     template <typename U, typename = std::enable_if_t<is_initializable_v<U>>>
     StatusOr& operator=(U &&value) noexcept {
+        // `value' may be the one held by `*this'
+        T tmp(std::forward<U>(value));
         destruct();
-        new (&variant_) Variant(std::forward<U>(value));
+        new (&variant_) Variant(std::move(tmp));
         state_ = kValue;
         return *this;
     }
-- 
2.43.0


From 0b65a04a2f6d7e323efaa7283f936b23ff9c779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 069/100] fix: keep what a StatusOr holds when a status cannot
 be copied into it

---
 src/common/base/StatusOr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/base/StatusOr.h b/src/common/base/StatusOr.h
index a3cc7a7..78f53b6 100644
--- a/src/common/base/StatusOr.h
+++ b/src/common/base/StatusOr.h
@@ -205,8 +205,9 @@ public:
 
     // Copy assign from a lvalue of `Status'
     StatusOr& operator=(const Status &status) {
+        Status copy(status);
         destruct();
-        new (&variant_) Variant(status);
+        new (&variant_) Variant(std::move(copy));
         state_ = kStatus;
         return *this;
     }
-- 
2.43.0


From 9220122173fe81aa2961ced4acac24c8deb10092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 070/100] fix: add the offset of the time zone to get the local
 time

---
 src/common/time/TimeUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 5e01b39..65ba3f2 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -88,7 +88,7 @@ public:
     static DateTime localDateTime() {
         auto time = unixTime();
         auto dt = TimeConversion::unixSecondsToDateTime(
-            time.seconds - Timezone::getGlobalTimezone().utcOffsetSecs());
+            time.seconds + Timezone::getGlobalTimezone().utcOffsetSecs());
         dt.microsec = time.milliseconds * 1000;
         return dt;
     }
@@ -145,7 +145,7 @@ public:
         if (unixTime == -1) {
             return Status::Error("Get unix time failed: %s.", std::strerror(errno));
         }
-        return TimeConversion::unixSecondsToDate(unixTime -
+        return TimeConversion::unixSecondsToDate(unixTime +
                                                  Timezone::getGlobalTimezone().utcOffsetSecs());
     }
 
@@ -201,7 +201,7 @@ public:
 
     static Time localTime() {
         auto time = unixTime();
-        auto t = TimeConversion::unixSecondsToTime(time.seconds -
+        auto t = TimeConversion::unixSecondsToTime(time.seconds +
                                                    Timezone::getGlobalTimezone().utcOffsetSecs());
         t.microsec = time.milliseconds * 1000;
         return t;
-- 
2.43.0


From c0c40c8de3a762e2ad82823a8f097b39773e8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 071/100] fix: count days by the leap years there are

---
 src/common/datatypes/Date.cpp | 80 ++++++++++++++---------------------
 src/common/datatypes/Date.h   |  6 +--
 2 files changed, 34 insertions(+), 52 deletions(-)

diff --git a/src/common/datatypes/Date.cpp b/src/common/datatypes/Date.cpp
index 749317e..3aa9acb 100644
--- a/src/common/datatypes/Date.cpp
+++ b/src/common/datatypes/Date.cpp
@@ -10,6 +10,7 @@
 #include <folly/hash/Hash.h>
 
 #include "common/datatypes/Date.h"
+#include "common/time/TimeConversion.h"
 
 namespace nebula {
 
@@ -20,69 +21,50 @@ Date::Date(uint64_t days) {
     fromInt(days);
 }
 
-int64_t Date::toInt() const {
-    // Year
-    int64_t yearsPassed = year + 32768L;
-    int64_t days = yearsPassed * 365L;
-    // Add one day per leap year
-    if (yearsPassed > 0) {
-        days += (yearsPassed - 1) / 4 + 1;
-    }
+namespace {
 
-    // Month
-    if (yearsPassed % 4 == 0) {
-        // Leap year
-        days += kLeapDaysSoFar[month - 1];
-    } else {
-        days += kDaysSoFar[month - 1];
+// Days from -32800/1/1 to the first day of the year `years' later.
+// -32800 is a multiple of 400, so it's a leap year and the cycle of leap years starts there.
+int64_t daysBeforeYear(int64_t years) {
+    if (years == 0) {
+        return 0;
     }
+    int64_t last = years - 1;
+    return years * 365 + last / 4 - last / 100 + last / 400 + 1;
+}
+
+constexpr int64_t kYearsShift = 32800;
+// Makes 0000/1/1 the day 11968512
+constexpr int64_t kDaysShift = 11442;
 
-    // Day
-    days += day;
+}   // namespace
 
-    // Since we start from -32768/1/1, we need to reduce one day
-    return days - 1;
+int64_t Date::toInt() const {
+    const int64_t *daysSoFar = time::TimeConversion::isLeapYear(year) ? kLeapDaysSoFar : kDaysSoFar;
+    return daysBeforeYear(year + kYearsShift) + daysSoFar[month - 1] + day - 1 - kDaysShift;
 }
 
 void Date::fromInt(int64_t days) {
-    // year
-    int64_t yearsPassed = (days + 1) / 365;
-    year = yearsPassed - 32768;
-    int64_t daysInYear = (days + 1) % 365;
-
-    // Deduce the number of days for leap years
-    if (yearsPassed > 0) {
-        daysInYear -= (yearsPassed - 1) / 4 + 1;
-    }
+    days += kDaysShift;
 
-    // Adjust the year if necessary
-    while (daysInYear <= 0) {
-        year = year - 1;
-        if (year % 4 == 0) {
-            // Leap year
-            daysInYear += 366;
-        } else {
-            daysInYear += 365;
-        }
+    // Year, 400 years have 146097 days
+    int64_t years = days * 400 / 146097;
+    while (daysBeforeYear(years) > days) {
+        --years;
+    }
+    while (daysBeforeYear(years + 1) <= days) {
+        ++years;
     }
+    year = years - kYearsShift;
 
     // Month and day
+    int64_t daysInYear = days - daysBeforeYear(years) + 1;
+    const int64_t *daysSoFar = time::TimeConversion::isLeapYear(year) ? kLeapDaysSoFar : kDaysSoFar;
     month = 1;
-    while (true) {
-        if (year % 4 == 0) {
-            // Leap year
-            if (daysInYear <= kLeapDaysSoFar[month]) {
-                day = daysInYear - kLeapDaysSoFar[month - 1];
-                break;
-            }
-        } else {
-            if (daysInYear <= kDaysSoFar[month]) {
-                day = daysInYear - kDaysSoFar[month - 1];
-                break;
-            }
-        }
+    while (daysInYear > daysSoFar[month]) {
         month++;
     }
+    day = daysInYear - daysSoFar[month - 1];
 }
 
 Date Date::operator+(int64_t days) const {
diff --git a/src/common/datatypes/Date.h b/src/common/datatypes/Date.h
index 2e7172d..0573d08 100644
--- a/src/common/datatypes/Date.h
+++ b/src/common/datatypes/Date.h
@@ -24,7 +24,7 @@ struct Date {
 
     Date() : year{0}, month{1}, day{1} {}
     Date(int16_t y, int8_t m, int8_t d) : year{y}, month{m}, day{d} {}
-    // Tak the number of days since -32768/1/1, and convert to the real date
+    // Take the number of a day, as of `toInt', and convert to the real date
     explicit Date(uint64_t days);
 
     void clear() {
@@ -67,9 +67,9 @@ struct Date {
 
     std::string toString() const;
 
-    // Return the number of days since -32768/1/1
+    // Return the number of the day in the proleptic Gregorian calendar, 0000/1/1 is 11968512
     int64_t toInt() const;
-    // Convert the number of days since -32768/1/1 to the real date
+    // Convert the number of a day to the real date
     void fromInt(int64_t days);
 };
 
-- 
2.43.0


From b7b17d0cf4ebaa922241908e4e10339cd2767a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 072/100] fix: an allocation that fails no longer leaves a
 Value of a type it does not hold

---
 src/common/datatypes/Value.cpp | 48 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index dffc374..92d1e41 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1297,18 +1297,18 @@ void Value::setS(std::unique_ptr<std::string> v) {
 }
 
 void Value::setS(const std::string& v) {
-    type_ = Type::STRING;
     new (std::addressof(value_.sVal)) std::unique_ptr<std::string>(new std::string(v));
+    type_ = Type::STRING;
 }
 
 void Value::setS(std::string&& v) {
-    type_ = Type::STRING;
     new (std::addressof(value_.sVal)) std::unique_ptr<std::string>(new std::string(std::move(v)));
+    type_ = Type::STRING;
 }
 
 void Value::setS(const char* v) {
-    type_ = Type::STRING;
     new (std::addressof(value_.sVal)) std::unique_ptr<std::string>(new std::string(v));
+    type_ = Type::STRING;
 }
 
 void Value::setD(const Date& v) {
@@ -1342,8 +1342,8 @@ void Value::setDT(DateTime&& v) {
 }
 
 void Value::setV(const std::unique_ptr<Vertex>& v) {
-    type_ = Type::VERTEX;
     new (std::addressof(value_.vVal)) std::unique_ptr<Vertex>(new Vertex(*v));
+    type_ = Type::VERTEX;
 }
 
 void Value::setV(std::unique_ptr<Vertex>&& v) {
@@ -1352,18 +1352,18 @@ void Value::setV(std::unique_ptr<Vertex>&& v) {
 }
 
 void Value::setV(const Vertex& v) {
-    type_ = Type::VERTEX;
     new (std::addressof(value_.vVal)) std::unique_ptr<Vertex>(new Vertex(v));
+    type_ = Type::VERTEX;
 }
 
 void Value::setV(Vertex&& v) {
-    type_ = Type::VERTEX;
     new (std::addressof(value_.vVal)) std::unique_ptr<Vertex>(new Vertex(std::move(v)));
+    type_ = Type::VERTEX;
 }
 
 void Value::setE(const std::unique_ptr<Edge>& v) {
-    type_ = Type::EDGE;
     new (std::addressof(value_.eVal)) std::unique_ptr<Edge>(new Edge(*v));
+    type_ = Type::EDGE;
 }
 
 void Value::setE(std::unique_ptr<Edge>&& v) {
@@ -1372,18 +1372,18 @@ void Value::setE(std::unique_ptr<Edge>&& v) {
 }
 
 void Value::setE(const Edge& v) {
-    type_ = Type::EDGE;
     new (std::addressof(value_.eVal)) std::unique_ptr<Edge>(new Edge(v));
+    type_ = Type::EDGE;
 }
 
 void Value::setE(Edge&& v) {
-    type_ = Type::EDGE;
     new (std::addressof(value_.eVal)) std::unique_ptr<Edge>(new Edge(std::move(v)));
+    type_ = Type::EDGE;
 }
 
 void Value::setP(const std::unique_ptr<Path>& v) {
-    type_ = Type::PATH;
     new (std::addressof(value_.pVal)) std::unique_ptr<Path>(new Path(*v));
+    type_ = Type::PATH;
 }
 
 void Value::setP(std::unique_ptr<Path>&& v) {
@@ -1392,18 +1392,18 @@ void Value::setP(std::unique_ptr<Path>&& v) {
 }
 
 void Value::setP(const Path& v) {
-    type_ = Type::PATH;
     new (std::addressof(value_.pVal)) std::unique_ptr<Path>(new Path(v));
+    type_ = Type::PATH;
 }
 
 void Value::setP(Path&& v) {
-    type_ = Type::PATH;
     new (std::addressof(value_.pVal)) std::unique_ptr<Path>(new Path(std::move(v)));
+    type_ = Type::PATH;
 }
 
 void Value::setL(const std::unique_ptr<List>& v) {
-    type_ = Type::LIST;
     new (std::addressof(value_.lVal)) std::unique_ptr<List>(new List(*v));
+    type_ = Type::LIST;
 }
 
 void Value::setL(std::unique_ptr<List>&& v) {
@@ -1412,18 +1412,18 @@ void Value::setL(std::unique_ptr<List>&& v) {
 }
 
 void Value::setL(const List& v) {
-    type_ = Type::LIST;
     new (std::addressof(value_.lVal)) std::unique_ptr<List>(new List(v));
+    type_ = Type::LIST;
 }
 
 void Value::setL(List&& v) {
-    type_ = Type::LIST;
     new (std::addressof(value_.lVal)) std::unique_ptr<List>(new List(std::move(v)));
+    type_ = Type::LIST;
 }
 
 void Value::setM(const std::unique_ptr<Map>& v) {
-    type_ = Type::MAP;
     new (std::addressof(value_.mVal)) std::unique_ptr<Map>(new Map(*v));
+    type_ = Type::MAP;
 }
 
 void Value::setM(std::unique_ptr<Map>&& v) {
@@ -1432,18 +1432,18 @@ void Value::setM(std::unique_ptr<Map>&& v) {
 }
 
 void Value::setM(const Map& v) {
-    type_ = Type::MAP;
     new (std::addressof(value_.mVal)) std::unique_ptr<Map>(new Map(v));
+    type_ = Type::MAP;
 }
 
 void Value::setM(Map&& v) {
-    type_ = Type::MAP;
     new (std::addressof(value_.mVal)) std::unique_ptr<Map>(new Map(std::move(v)));
+    type_ = Type::MAP;
 }
 
 void Value::setU(const std::unique_ptr<Set>& v) {
-    type_ = Type::SET;
     new (std::addressof(value_.uVal)) std::unique_ptr<Set>(new Set(*v));
+    type_ = Type::SET;
 }
 
 void Value::setU(std::unique_ptr<Set>&& v) {
@@ -1452,18 +1452,18 @@ void Value::setU(std::unique_ptr<Set>&& v) {
 }
 
 void Value::setU(const Set& v) {
-    type_ = Type::SET;
     new (std::addressof(value_.uVal)) std::unique_ptr<Set>(new Set(v));
+    type_ = Type::SET;
 }
 
 void Value::setU(Set&& v) {
-    type_ = Type::SET;
     new (std::addressof(value_.vVal)) std::unique_ptr<Set>(new Set(std::move(v)));
+    type_ = Type::SET;
 }
 
 void Value::setG(const std::unique_ptr<DataSet>& v) {
-    type_ = Type::DATASET;
     new (std::addressof(value_.gVal)) std::unique_ptr<DataSet>(new DataSet(*v));
+    type_ = Type::DATASET;
 }
 
 void Value::setG(std::unique_ptr<DataSet>&& v) {
@@ -1472,13 +1472,13 @@ void Value::setG(std::unique_ptr<DataSet>&& v) {
 }
 
 void Value::setG(const DataSet& v) {
-    type_ = Type::DATASET;
     new (std::addressof(value_.gVal)) std::unique_ptr<DataSet>(new DataSet(v));
+    type_ = Type::DATASET;
 }
 
 void Value::setG(DataSet&& v) {
-    type_ = Type::DATASET;
     new (std::addressof(value_.gVal)) std::unique_ptr<DataSet>(new DataSet(std::move(v)));
+    type_ = Type::DATASET;
 }
 
 std::string Value::toString() const {
-- 
2.43.0


From 01d65c648708b17319df2c2d8361cab6cb37c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 073/100] fix: the values of a set are found by protocols that
 carry field names

---
 src/common/datatypes/SetOps.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/SetOps.inl b/src/common/datatypes/SetOps.inl
index 79a80c8..6b75511 100644
--- a/src/common/datatypes/SetOps.inl
+++ b/src/common/datatypes/SetOps.inl
@@ -29,7 +29,7 @@ struct TccStructTraits<nebula::Set> {
             MAYBE_UNUSED apache::thrift::protocol::TType& _ftype) {
         if (_fname == "values") {
             fid = 1;
-            _ftype = apache::thrift::protocol::T_STRUCT;
+            _ftype = apache::thrift::protocol::T_SET;
         }
     }
 };
-- 
2.43.0


From 88bf59525a5f114cc94a3fc62d40d0b63afdc188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 074/100] fix: the type and the ranking of a new edge are zero
 instead of undefined

---
 src/common/datatypes/Edge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/datatypes/Edge.h b/src/common/datatypes/Edge.h
index 288b3f2..aae1c16 100644
--- a/src/common/datatypes/Edge.h
+++ b/src/common/datatypes/Edge.h
@@ -17,9 +17,9 @@ namespace nebula {
 struct Edge {
     Value src;
     Value dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Edge() {}
-- 
2.43.0


From 93e7acf7b7254ecf534bc2035c81d8d7f3f6f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 075/100] fix: clearing an AuthResponse clears its time zone as
 well

---
 src/common/graph/Response.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index fe18498..b36235a 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -211,6 +211,8 @@ struct AuthResponse {
         errorCode = ErrorCode::SUCCEEDED;
         sessionId = nullptr;
         errorMsg = nullptr;
+        timeZoneOffsetSeconds = nullptr;
+        timeZoneName = nullptr;
     }
 
     void clear() {
-- 
2.43.0


From a2b6f2070244a173d1f7a8eefc7b257c64e2285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 076/100] fix: AuthResponses of different time zones are not
 equal

---
 src/common/graph/Response.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index b36235a..332063a 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -232,7 +232,7 @@ struct AuthResponse {
         if (!checkPointer(timeZoneOffsetSeconds.get(), rhs.timeZoneOffsetSeconds.get())) {
             return false;
         }
-        return checkPointer(timeZoneName.get(), timeZoneName.get());
+        return checkPointer(timeZoneName.get(), rhs.timeZoneName.get());
     }
 
     ErrorCode errorCode{ErrorCode::SUCCEEDED};
-- 
2.43.0


From b0cb5e09381a29c3d496f3e22dcfaa63f787be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 077/100] fix: PlanDescriptions of different optimize times are
 not equal

---
 src/common/graph/Response.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index 332063a..2f6559c 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -361,7 +361,8 @@ struct PlanDescription {
     bool operator==(const PlanDescription &rhs) const {
         return planNodeDescs == rhs.planNodeDescs &&
             nodeIndexMap == rhs.nodeIndexMap &&
-            format == rhs.format;
+            format == rhs.format &&
+            optimize_time_in_us == rhs.optimize_time_in_us;
     }
 
     std::vector<PlanNodeDescription>     planNodeDescs;
-- 
2.43.0


From 86d94ae6d43f0768d57aa6b3a4938e7fb348b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 078/100] fix: the type and the ranking of a new step are zero
 instead of undefined

---
 src/common/datatypes/Path.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index e6c9522..625dd17 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -15,9 +15,9 @@ namespace nebula {
 
 struct Step {
     Vertex dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Step() = default;
-- 
2.43.0


From 541bc3a4b57c23fc0075488c30da56e664af60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 079/100] fix: PlanNodeDescriptions of different output
 variables are not equal

---
 src/common/graph/Response.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/graph/Response.cpp b/src/common/graph/Response.cpp
index 4d91952..adb0e22 100644
--- a/src/common/graph/Response.cpp
+++ b/src/common/graph/Response.cpp
@@ -15,6 +15,9 @@ bool PlanNodeDescription::operator==(const PlanNodeDescription &rhs) const {
     if (id != rhs.id) {
         return false;
     }
+    if (outputVar != rhs.outputVar) {
+        return false;
+    }
     if (!checkPointer(description.get(), rhs.description.get())) {
         return false;
     }
-- 
2.43.0


From 62bcba9aafa66a1925e8acf3cd3485c9907070aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:41 +0000
Subject: [PATCH 080/100] fix: a received set of maps, sets or data sets no
 longer aborts the process

---
 src/common/datatypes/Value.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 92d1e41..23bd664 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -64,13 +64,29 @@ std::size_t hash<nebula::Value>::operator()(const nebula::Value& v) const noexce
             return hash<nebula::List>()(v.getList());
         }
         case nebula::Value::Type::MAP: {
-            LOG(FATAL) << "Hash for MAP has not been implemented";
+            size_t seed = v.getMap().kvs.size();
+            for (auto& kv : v.getMap().kvs) {   // in no particular order
+                size_t h = hash<string>()(kv.first);
+                seed += h ^ (hash<nebula::Value>()(kv.second) + 0x9e3779b9 + (h << 6) + (h >> 2));
+            }
+            return seed;
         }
         case nebula::Value::Type::SET: {
-            LOG(FATAL) << "Hash for SET has not been implemented";
+            size_t seed = v.getSet().values.size();
+            for (auto& e : v.getSet().values) {   // in no particular order
+                seed += hash<nebula::Value>()(e);
+            }
+            return seed;
         }
         case nebula::Value::Type::DATASET: {
-            LOG(FATAL) << "Hash for DATASET has not been implemented";
+            size_t seed = 0;
+            for (auto& name : v.getDataSet().colNames) {
+                seed ^= hash<string>()(name) + 0x9e3779b9 + (seed << 6) + (seed >> 2);
+            }
+            for (auto& row : v.getDataSet().rows) {
+                seed ^= hash<nebula::List>()(row) + 0x9e3779b9 + (seed << 6) + (seed >> 2);
+            }
+            return seed;
         }
         default: {
             LOG(FATAL) << "Unknown type";
-- 
2.43.0


From d8ccc0767022f3d0cb36264ee7ceae5705807a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 081/100] fix: an encoded column expression can be decoded

---
 src/common/expression/ColumnExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/ColumnExpression.cpp b/src/common/expression/ColumnExpression.cpp
index c98066a..cc9e87a 100644
--- a/src/common/expression/ColumnExpression.cpp
+++ b/src/common/expression/ColumnExpression.cpp
@@ -35,7 +35,7 @@ void ColumnExpression::accept(ExprVisitor *visitor) {
 
 void ColumnExpression::writeTo(Encoder &encoder) const {
     encoder << kind_;
-    encoder << index_;
+    encoder << Value(index_);
 }
 
 void ColumnExpression::resetFrom(Decoder &decoder) {
-- 
2.43.0


From f4e4e56df65b809c1c4a3abae692c353e7c2cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 082/100] fix: an unknown attribute of an edge no longer
 answers that of a previous row

---
 src/common/expression/AttributeExpression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/expression/AttributeExpression.cpp b/src/common/expression/AttributeExpression.cpp
index c0f228b..a006dc9 100644
--- a/src/common/expression/AttributeExpression.cpp
+++ b/src/common/expression/AttributeExpression.cpp
@@ -46,6 +46,8 @@ const Value& AttributeExpression::eval(ExpressionContext &ctx) {
                     result_ = lvalue.getEdge().ranking;
                 } else if (rvalue.getStr() == kType) {
                     result_ = lvalue.getEdge().name;
+                } else {
+                    return Value::kNullUnknownProp;
                 }
                 return result_;
             }
-- 
2.43.0


From 4df07586012837ec1b417990de74752eea6654a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 083/100] fix: aggregations with and without distinct are not
 equal

---
 src/common/expression/AggregateExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/AggregateExpression.cpp b/src/common/expression/AggregateExpression.cpp
index 72b3d78..4f2258d 100644
--- a/src/common/expression/AggregateExpression.cpp
+++ b/src/common/expression/AggregateExpression.cpp
@@ -14,7 +14,7 @@ bool AggregateExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = static_cast<const AggregateExpression&>(rhs);
-    return name_ == r.name_ && *arg_ == *(r.arg_);
+    return name_ == r.name_ && distinct_ == r.distinct_ && *arg_ == *(r.arg_);
 }
 
 void AggregateExpression::writeTo(Encoder& encoder) const {
-- 
2.43.0


From 3cbe5b8d6a414a1fdc27b467a3d1036d8ba85995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 084/100] fix: an inner variable that hides its collection no
 longer frees the list being read

---
 src/common/expression/ListComprehensionExpression.cpp | 3 ++-
 src/common/expression/PredicateExpression.cpp         | 3 ++-
 src/common/expression/ReduceExpression.cpp            | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/expression/ListComprehensionExpression.cpp b/src/common/expression/ListComprehensionExpression.cpp
index b72dae4..947b294 100644
--- a/src/common/expression/ListComprehensionExpression.cpp
+++ b/src/common/expression/ListComprehensionExpression.cpp
@@ -22,7 +22,8 @@ const Value& ListComprehensionExpression::eval(ExpressionContext& ctx) {
         return result_;
     }
 
-    auto& list = listVal.getList();
+    // The inner variable may hide the one that holds the collection, so keep a copy
+    auto list = listVal.getList();
 
     if  (filter_ == nullptr && mapping_ == nullptr) {
         result_ = std::move(list);
diff --git a/src/common/expression/PredicateExpression.cpp b/src/common/expression/PredicateExpression.cpp
index 62d0707..ca7205e 100644
--- a/src/common/expression/PredicateExpression.cpp
+++ b/src/common/expression/PredicateExpression.cpp
@@ -75,7 +75,8 @@ const Value& PredicateExpression::eval(ExpressionContext& ctx) {
         result_ = Value::kNullBadType;
         return result_;
     }
-    auto& list = listVal.getList();
+    // The inner variable may hide the one that holds the collection, so keep a copy
+    auto list = listVal.getList();
 
     switch (type) {
         case Type::ALL: {
diff --git a/src/common/expression/ReduceExpression.cpp b/src/common/expression/ReduceExpression.cpp
index 6cb9619..3f0fd7d 100644
--- a/src/common/expression/ReduceExpression.cpp
+++ b/src/common/expression/ReduceExpression.cpp
@@ -21,7 +21,8 @@ const Value& ReduceExpression::eval(ExpressionContext& ctx) {
         result_ = Value::kNullBadType;
         return result_;
     }
-    auto& list = listVal.getList();
+    // The inner variable may hide the one that holds the collection, so keep a copy
+    auto list = listVal.getList();
 
     ctx.setVar(accumulator_, initVal);
     for (size_t i = 0; i < list.size(); ++i) {
-- 
2.43.0


From 7153d69b5f27730994e841492c2431ccf61ddcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 085/100] fix: a variable of no particular version can be
 cloned and compared

---
 src/common/expression/VariableExpression.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/expression/VariableExpression.h b/src/common/expression/VariableExpression.h
index 5abbd1b..c4f3bd9 100644
--- a/src/common/expression/VariableExpression.h
+++ b/src/common/expression/VariableExpression.h
@@ -87,6 +87,9 @@ public:
             return false;
         }
 
+        if (version_ == nullptr || vve.version_ == nullptr) {
+            return version_ == vve.version_;
+        }
         return *version_ == *vve.version_;
     }
 
@@ -95,7 +98,8 @@ public:
     void accept(ExprVisitor* visitor) override;
 
     Expression* clone() const override {
-        return VersionedVariableExpression::make(pool_, var(), version_->clone());
+        return VersionedVariableExpression::make(
+            pool_, var(), version_ != nullptr ? version_->clone() : nullptr);
     }
 
 private:
-- 
2.43.0


From 61a0126e1e7fb198f3cc7921063cb0be89393969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:13 +0000
Subject: [PATCH 086/100] fix: a date or time given in part is no longer
 completed with undefined values

---
 src/common/time/TimeUtils.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 65ba3f2..f6a5603 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -50,7 +50,9 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<DateTime> parseDateTime(const std::string &str) {
-        std::tm tm;
+        // What the string leaves out has its default
+        std::tm tm = {};
+        tm.tm_mday = 1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%Y-%m-%dT%H:%M:%S");
         if (ss.fail()) {
@@ -125,7 +127,9 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<Date> parseDate(const std::string &str) {
-        std::tm tm;
+        // What the string leaves out has its default
+        std::tm tm = {};
+        tm.tm_mday = 1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%Y-%m-%d");
         if (ss.fail()) {
@@ -176,7 +180,9 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<Time> parseTime(const std::string &str) {
-        std::tm tm;
+        // What the string leaves out has its default
+        std::tm tm = {};
+        tm.tm_mday = 1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%H:%M:%S");
         if (ss.fail()) {
-- 
2.43.0


From f5486d214e21f2f55103da25a0b2dbf600c200bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 087/100] fix: a date plus a huge number of days is computed
 without overflow

---
 src/common/datatypes/Date.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/datatypes/Date.cpp b/src/common/datatypes/Date.cpp
index 3aa9acb..cab5896 100644
--- a/src/common/datatypes/Date.cpp
+++ b/src/common/datatypes/Date.cpp
@@ -45,9 +45,15 @@ int64_t Date::toInt() const {
 }
 
 void Date::fromInt(int64_t days) {
-    days += kDaysShift;
+    // 400 years have 146097 days
+    int64_t cycles = days / 146097;
+    days = days % 146097 + kDaysShift;
+    if (days < 0) {
+        days += 146097;
+        --cycles;
+    }
 
-    // Year, 400 years have 146097 days
+    // Year
     int64_t years = days * 400 / 146097;
     while (daysBeforeYear(years) > days) {
         --years;
@@ -55,11 +61,11 @@ void Date::fromInt(int64_t days) {
     while (daysBeforeYear(years + 1) <= days) {
         ++years;
     }
-    year = years - kYearsShift;
+    year = cycles * 400 + years - kYearsShift;
 
     // Month and day
     int64_t daysInYear = days - daysBeforeYear(years) + 1;
-    const int64_t *daysSoFar = time::TimeConversion::isLeapYear(year) ? kLeapDaysSoFar : kDaysSoFar;
+    const int64_t *daysSoFar = time::TimeConversion::isLeapYear(years) ? kLeapDaysSoFar : kDaysSoFar;
     month = 1;
     while (daysInYear > daysSoFar[month]) {
         month++;
-- 
2.43.0


From bd9d25933419ebadaf5870a2f9e0c51740e2ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:30 +0000
Subject: [PATCH 088/100] fix: the remainder of the smallest integer by -1 no
 longer kills the process

---
 src/common/datatypes/Value.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 23bd664..56a6b0c 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -2384,6 +2384,10 @@ Value operator%(const Value& lhs, const Value& rhs) {
             switch (rhs.type()) {
                 case Value::Type::INT: {
                     int64_t denom = rhs.getInt();
+                    if (denom == -1) {
+                        // INT_MIN % -1 traps, although every remainder of it is 0
+                        return static_cast<int64_t>(0);
+                    }
                     if (denom != 0) {
                         return lhs.getInt() % denom;
                     } else {
-- 
2.43.0


From 96a4c308c0ff87e9921ede5c13d6366767ffccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 089/100] fix: padding with an empty string no longer runs for
 ever

---
 src/common/function/FunctionManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 008dc51..65689d8 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1271,6 +1271,10 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        // There is nothing to pad with
+                        return value;
+                    }
                     size -= value.size();
                     std::stringstream stream;
                     while (size > static_cast<int64_t>(extra.size())) {
@@ -1301,6 +1305,10 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        // There is nothing to pad with
+                        return value;
+                    }
                     std::stringstream stream;
                     stream << value;
                     size -= value.size();
-- 
2.43.0


From 6d16f49f571b080435509412bbe505acd1557633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 090/100] fix: asking an edge for the property named "" answers
 instead of aborting a debug build

---
 src/common/expression/AttributeExpression.cpp | 3 +--
 src/common/expression/SubscriptExpression.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/expression/AttributeExpression.cpp b/src/common/expression/AttributeExpression.cpp
index a006dc9..0ca5d3d 100644
--- a/src/common/expression/AttributeExpression.cpp
+++ b/src/common/expression/AttributeExpression.cpp
@@ -36,8 +36,7 @@ const Value& AttributeExpression::eval(ExpressionContext &ctx) {
             return Value::kNullUnknownProp;
         }
         case Value::Type::EDGE: {
-            DCHECK(!rvalue.getStr().empty());
-            if (rvalue.getStr()[0] == '_') {
+            if (!rvalue.getStr().empty() && rvalue.getStr()[0] == '_') {
                 if (rvalue.getStr() == kSrc) {
                     result_ = lvalue.getEdge().src;
                 } else if (rvalue.getStr() == kDst) {
diff --git a/src/common/expression/SubscriptExpression.cpp b/src/common/expression/SubscriptExpression.cpp
index b34feb4..6d8a02f 100644
--- a/src/common/expression/SubscriptExpression.cpp
+++ b/src/common/expression/SubscriptExpression.cpp
@@ -77,8 +77,7 @@ const Value& SubscriptExpression::eval(ExpressionContext &ctx) {
             if (!rvalue.isStr()) {
                 break;
             }
-            DCHECK(!rvalue.getStr().empty());
-            if (rvalue.getStr()[0] == '_') {
+            if (!rvalue.getStr().empty() && rvalue.getStr()[0] == '_') {
                 if (rvalue.getStr() == kSrc) {
                     result_ = lvalue.getEdge().src;
                 } else if (rvalue.getStr() == kDst) {
-- 
2.43.0


From 652d260b11ba2d9f9ee4b20cb69bd7a4bcc03b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:57 +0000
Subject: [PATCH 091/100] fix: hashing a vertex or an edge no longer allocates,
 and so cannot end the process

---
 src/common/datatypes/Edge.cpp   | 8 ++++----
 src/common/datatypes/Vertex.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/datatypes/Edge.cpp b/src/common/datatypes/Edge.cpp
index af01fb4..2b43958 100644
--- a/src/common/datatypes/Edge.cpp
+++ b/src/common/datatypes/Edge.cpp
@@ -100,11 +100,11 @@ namespace std {
 
 // Inject a customized hash function
 std::size_t hash<nebula::Edge>::operator()(const nebula::Edge& h) const noexcept {
-    const auto& src = h.type > 0 ? h.src.toString() : h.dst.toString();
-    const auto& dst = h.type > 0 ? h.dst.toString() : h.src.toString();
+    const auto src = hash<nebula::Value>()(h.type > 0 ? h.src : h.dst);
+    const auto dst = hash<nebula::Value>()(h.type > 0 ? h.dst : h.src);
     auto type = h.type > 0 ? h.type : -h.type;
-    size_t hv = folly::hash::fnv64(src);
-    hv = folly::hash::fnv64(dst, hv);
+    size_t hv = folly::hash::fnv64_buf(reinterpret_cast<const void*>(&src), sizeof(src));
+    hv = folly::hash::fnv64_buf(reinterpret_cast<const void*>(&dst), sizeof(dst), hv);
     hv = folly::hash::fnv64_buf(reinterpret_cast<const void*>(&type), sizeof(type), hv);
     return folly::hash::fnv64_buf(reinterpret_cast<const void*>(&h.ranking), sizeof(h.ranking), hv);
 }
diff --git a/src/common/datatypes/Vertex.cpp b/src/common/datatypes/Vertex.cpp
index 388c23b..ea862d0 100644
--- a/src/common/datatypes/Vertex.cpp
+++ b/src/common/datatypes/Vertex.cpp
@@ -97,7 +97,7 @@ std::size_t hash<nebula::Tag>::operator()(const nebula::Tag& h) const noexcept {
 }
 
 std::size_t hash<nebula::Vertex>::operator()(const nebula::Vertex& h) const noexcept {
-    size_t hv = folly::hash::fnv64(h.vid.toString());
+    size_t hv = hash<nebula::Value>()(h.vid);
     for (auto& t : h.tags) {
         hv += (hv << 1) + (hv << 4) + (hv << 5) + (hv << 7) + (hv << 8) + (hv << 40);
         hv ^= hash<nebula::Tag>()(t);
-- 
2.43.0


From dff8b3f8c78f1557018d44460859f1512dd84246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 092/100] fix: the first and last element of an empty list are
 null instead of undefined

---
 src/common/function/FunctionManager.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 65689d8..fc9faed 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1866,7 +1866,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.front();
+                    auto &values = args[0].get().getList().values;
+                    if (values.empty()) {
+                        return Value::kNullValue;
+                    }
+                    return values.front();
                 }
                 default: {
                     return Value::kNullBadType;
@@ -1885,7 +1889,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.back();
+                    auto &values = args[0].get().getList().values;
+                    if (values.empty()) {
+                        return Value::kNullValue;
+                    }
+                    return values.back();
                 }
                 default: {
                     return Value::kNullBadType;
-- 
2.43.0


From 065f189be32b612a0dd335b33ca17b8bbc427813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 093/100] fix: rand() is not a pure function

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index fc9faed..9411ec2 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -822,7 +822,7 @@ FunctionManager::FunctionManager() {
         auto &attr = functions_["rand"];
         attr.minArity_ = 0;
         attr.maxArity_ = 0;
-        attr.isPure_ = true;
+        attr.isPure_ = false;
         attr.body_ = [](const auto &args) -> Value {
             UNUSED(args);
             return folly::Random::randDouble01();
-- 
2.43.0


From 4fac341a4294a237d100d3456eda92992c74107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 094/100] fix: rand32(max) is not negative when max is beyond
 31 bits

---
 src/common/function/FunctionManager.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 9411ec2..a6a48a9 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -844,8 +844,7 @@ FunctionManager::FunctionManager() {
                     if (max < 0 || max > std::numeric_limits<uint32_t>::max()) {
                         return Value::kNullBadData;
                     }
-                    auto value = folly::Random::rand32(max);
-                    return static_cast<int64_t>(static_cast<int32_t>(value));
+                    return static_cast<int64_t>(folly::Random::rand32(max));
                 }
                 return Value::kNullBadType;
             }
-- 
2.43.0


From be58a430b49ac16eaecad33d9ef13c01051f2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 095/100] fix: range() ends at the ends of the numbers instead
 of wrapping around

---
 src/common/function/FunctionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index a6a48a9..546c164 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1629,8 +1629,12 @@ FunctionManager::FunctionManager() {
             }
 
             List res;
-            for (auto i = start; step > 0? i <= end : i >= end; i = i + step) {
+            for (auto i = start; step > 0? i <= end : i >= end;) {
                 res.emplace_back(i);
+                if (__builtin_add_overflow(i, step, &i)) {
+                    // The next one is beyond all numbers, and so beyond the end
+                    break;
+                }
             }
             return Value(res);
         };
-- 
2.43.0


From ce41634dd6b9a8a26a3a87ef749155b6e07eec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:00 +0000
Subject: [PATCH 096/100] fix: a daemon's standard input is /dev/null also when
 it was closed before, or daemonize() fails

---
 src/common/process/ProcessUtils.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index 852418b..d5407fb 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -104,8 +104,17 @@ Status ProcessUtils::daemonize(const std::string &pidFile) {
     ::setsid();
     // Set `/dev/null' as standard input
     auto fd = ::open("/dev/null", O_RDWR);
-    ::dup2(fd, 0);
-    ::close(fd);
+    if (fd == -1) {
+        return Status::Error("open `/dev/null': %s", ::strerror(errno));
+    }
+    if (fd != STDIN_FILENO) {   // it is, when the standard input was closed
+        if (::dup2(fd, STDIN_FILENO) == -1) {
+            auto status = Status::Error("dup2: %s", ::strerror(errno));
+            ::close(fd);
+            return status;
+        }
+        ::close(fd);
+    }
 
     return makePidFile(pidFile);
 }
-- 
2.43.0


From 20e6b9b0ae5706fe514a87e26748d9101ef4caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 097/100] fix: a value can be given a part of itself

---
 src/common/datatypes/Value.cpp | 235 ++++++++-------------------------
 1 file changed, 57 insertions(+), 178 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 56a6b0c..0ae6c5e 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -487,128 +487,103 @@ const std::string& Value::typeName() const {
 }
 
 void Value::setNull(const NullType& v) {
-    clear();
-    setN(v);
+    *this = Value(v);
 }
 
 void Value::setNull(NullType&& v) {
-    clear();
-    setN(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setBool(const bool& v) {
-    clear();
-    setB(v);
+    *this = Value(v);
 }
 
 void Value::setBool(bool&& v) {
-    clear();
-    setB(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int8_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int8_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int16_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int16_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int32_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int32_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int64_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int64_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setFloat(const double& v) {
-    clear();
-    setF(v);
+    *this = Value(v);
 }
 
 void Value::setFloat(double&& v) {
-    clear();
-    setF(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setStr(const std::string& v) {
-    clear();
-    setS(v);
+    *this = Value(v);
 }
 
 void Value::setStr(std::string&& v) {
-    clear();
-    setS(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setStr(const char* v) {
-    clear();
-    setS(v);
+    *this = Value(v);
 }
 
 void Value::setDate(const Date& v) {
-    clear();
-    setD(v);
+    *this = Value(v);
 }
 
 void Value::setDate(Date&& v) {
-    clear();
-    setD(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setTime(const Time& v) {
-    clear();
-    setT(v);
+    *this = Value(v);
 }
 
 void Value::setTime(Time&& v) {
-    clear();
-    setT(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setDateTime(const DateTime& v) {
-    clear();
-    setDT(v);
+    *this = Value(v);
 }
 
 void Value::setDateTime(DateTime&& v) {
-    clear();
-    setDT(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setVertex(const Vertex& v) {
-    clear();
-    setV(v);
+    *this = Value(v);
 }
 
 void Value::setVertex(Vertex&& v) {
-    clear();
-    setV(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setVertex(std::unique_ptr<Vertex>&& v) {
@@ -617,13 +592,11 @@ void Value::setVertex(std::unique_ptr<Vertex>&& v) {
 }
 
 void Value::setEdge(const Edge& v) {
-    clear();
-    setE(v);
+    *this = Value(v);
 }
 
 void Value::setEdge(Edge&& v) {
-    clear();
-    setE(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setEdge(std::unique_ptr<Edge>&& v) {
@@ -632,13 +605,11 @@ void Value::setEdge(std::unique_ptr<Edge>&& v) {
 }
 
 void Value::setPath(const Path& v) {
-    clear();
-    setP(v);
+    *this = Value(v);
 }
 
 void Value::setPath(Path&& v) {
-    clear();
-    setP(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setPath(std::unique_ptr<Path>&& v) {
@@ -647,13 +618,11 @@ void Value::setPath(std::unique_ptr<Path>&& v) {
 }
 
 void Value::setList(const List& v) {
-    clear();
-    setL(v);
+    *this = Value(v);
 }
 
 void Value::setList(List&& v) {
-    clear();
-    setL(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setList(std::unique_ptr<List>&& v) {
@@ -662,13 +631,11 @@ void Value::setList(std::unique_ptr<List>&& v) {
 }
 
 void Value::setMap(const Map& v) {
-    clear();
-    setM(v);
+    *this = Value(v);
 }
 
 void Value::setMap(Map&& v) {
-    clear();
-    setM(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setMap(std::unique_ptr<Map>&& v) {
@@ -677,13 +644,11 @@ void Value::setMap(std::unique_ptr<Map>&& v) {
 }
 
 void Value::setSet(const Set& v) {
-    clear();
-    setU(v);
+    *this = Value(v);
 }
 
 void Value::setSet(Set&& v) {
-    clear();
-    setU(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setSet(std::unique_ptr<Set>&& v) {
@@ -692,13 +657,11 @@ void Value::setSet(std::unique_ptr<Set>&& v) {
 }
 
 void Value::setDataSet(const DataSet& v) {
-    clear();
-    setG(v);
+    *this = Value(v);
 }
 
 void Value::setDataSet(DataSet&& v) {
-    clear();
-    setG(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setDataSet(std::unique_ptr<DataSet>&& v) {
@@ -1087,82 +1050,84 @@ void Value::clear() {
 
 Value& Value::operator=(Value&& rhs) noexcept {
     if (this == &rhs) { return *this; }
+    // `rhs' may be a part of what is held here
+    Value held(std::move(rhs));
     clear();
-    if (rhs.type_ == Type::__EMPTY__) { return *this; }
-    switch (rhs.type_) {
+    if (held.type_ == Type::__EMPTY__) { return *this; }
+    switch (held.type_) {
         case Type::NULLVALUE:
         {
-            setN(std::move(rhs.value_.nVal));
+            setN(std::move(held.value_.nVal));
             break;
         }
         case Type::BOOL:
         {
-            setB(std::move(rhs.value_.bVal));
+            setB(std::move(held.value_.bVal));
             break;
         }
         case Type::INT:
         {
-            setI(std::move(rhs.value_.iVal));
+            setI(std::move(held.value_.iVal));
             break;
         }
         case Type::FLOAT:
         {
-            setF(std::move(rhs.value_.fVal));
+            setF(std::move(held.value_.fVal));
             break;
         }
         case Type::STRING:
         {
-            setS(std::move(rhs.value_.sVal));
+            setS(std::move(held.value_.sVal));
             break;
         }
         case Type::DATE:
         {
-            setD(std::move(rhs.value_.dVal));
+            setD(std::move(held.value_.dVal));
             break;
         }
         case Type::TIME:
         {
-            setT(std::move(rhs.value_.tVal));
+            setT(std::move(held.value_.tVal));
             break;
         }
         case Type::DATETIME:
         {
-            setDT(std::move(rhs.value_.dtVal));
+            setDT(std::move(held.value_.dtVal));
             break;
         }
         case Type::VERTEX:
         {
-            setV(std::move(rhs.value_.vVal));
+            setV(std::move(held.value_.vVal));
             break;
         }
         case Type::EDGE:
         {
-            setE(std::move(rhs.value_.eVal));
+            setE(std::move(held.value_.eVal));
             break;
         }
         case Type::PATH:
         {
-            setP(std::move(rhs.value_.pVal));
+            setP(std::move(held.value_.pVal));
             break;
         }
         case Type::LIST:
         {
-            setL(std::move(rhs.value_.lVal));
+            setL(std::move(held.value_.lVal));
             break;
         }
         case Type::MAP:
         {
-            setM(std::move(rhs.value_.mVal));
+            setM(std::move(held.value_.mVal));
             break;
         }
         case Type::SET:
         {
-            setU(std::move(rhs.value_.uVal));
+            setU(std::move(held.value_.uVal));
             break;
         }
         case Type::DATASET:
         {
-            setG(std::move(rhs.value_.gVal));
+            setG(std::move(held.value_.gVal));
             break;
         }
         default:
@@ -1171,99 +1136,13 @@ Value& Value::operator=(Value&& rhs) noexcept {
             break;
         }
     }
-    rhs.clear();
     return *this;
 }
 
 
 Value& Value::operator=(const Value& rhs) {
     if (this == &rhs) { return *this; }
-    clear();
-    if (rhs.type_ == Type::__EMPTY__) { return *this; }
-    switch (rhs.type_) {
-        case Type::NULLVALUE:
-        {
-            setN(rhs.value_.nVal);
-            break;
-        }
-        case Type::BOOL:
-        {
-            setB(rhs.value_.bVal);
-            break;
-        }
-        case Type::INT:
-        {
-            setI(rhs.value_.iVal);
-            break;
-        }
-        case Type::FLOAT:
-        {
-            setF(rhs.value_.fVal);
-            break;
-        }
-        case Type::STRING:
-        {
-            setS(*rhs.value_.sVal);
-            break;
-        }
-        case Type::DATE:
-        {
-            setD(rhs.value_.dVal);
-            break;
-        }
-        case Type::TIME:
-        {
-            setT(rhs.value_.tVal);
-            break;
-        }
-        case Type::DATETIME:
-        {
-            setDT(rhs.value_.dtVal);
-            break;
-        }
-        case Type::VERTEX:
-        {
-            setV(rhs.value_.vVal);
-            break;
-        }
-        case Type::EDGE:
-        {
-            setE(rhs.value_.eVal);
-            break;
-        }
-        case Type::PATH:
-        {
-            setP(rhs.value_.pVal);
-            break;
-        }
-        case Type::LIST:
-        {
-            setL(rhs.value_.lVal);
-            break;
-        }
-        case Type::MAP:
-        {
-            setM(rhs.value_.mVal);
-            break;
-        }
-        case Type::SET:
-        {
-            setU(rhs.value_.uVal);
-            break;
-        }
-        case Type::DATASET:
-        {
-            setG(rhs.value_.gVal);
-            break;
-        }
-        default:
-        {
-            assert(false);
-            break;
-        }
-    }
-    type_ = rhs.type_;
-    return *this;
+    return *this = Value(rhs);
 }
 
 
-- 
2.43.0


From e14303dd259facda4eb34220ab5ec7095d19b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:19 +0000
Subject: [PATCH 098/100] fix: copying a data set that runs out of memory no
 longer ends the process

---
 src/common/datatypes/DataSet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/datatypes/DataSet.h b/src/common/datatypes/DataSet.h
index 5b2b2b5..be0bc50 100644
--- a/src/common/datatypes/DataSet.h
+++ b/src/common/datatypes/DataSet.h
@@ -25,7 +25,7 @@ struct DataSet {
 
     DataSet() = default;
     explicit DataSet(std::vector<std::string> columns) : colNames(std::move(columns)) {}
-    DataSet(const DataSet& ds) noexcept {
+    DataSet(const DataSet& ds) {
         colNames = ds.colNames;
         rows = ds.rows;
     }
@@ -33,7 +33,7 @@ struct DataSet {
         colNames = std::move(ds.colNames);
         rows = std::move(ds.rows);
     }
-    DataSet& operator=(const DataSet& ds) noexcept {
+    DataSet& operator=(const DataSet& ds) {
         if (&ds != this) {
             colNames = ds.colNames;
             rows = ds.rows;
-- 
2.43.0


From 53f20019fe147cc7454406e5404b036fee0aae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:19 +0000
Subject: [PATCH 099/100] fix: a path is prolonged only by one that starts
 where it ends

---
 src/common/datatypes/Path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/Path.cpp b/src/common/datatypes/Path.cpp
index afa25e9..2e711b0 100644
--- a/src/common/datatypes/Path.cpp
+++ b/src/common/datatypes/Path.cpp
@@ -28,7 +28,7 @@ void Path::reverse() {
 }
 
 bool Path::append(Path path) {
-    if (src != path.src && steps.back().dst != path.src) {
+    if ((steps.empty() ? src : steps.back().dst) != path.src) {
         return false;
     }
     steps.reserve(steps.size() + path.steps.size());
-- 
2.43.0


From 376fc50001f4d8b5b6ed82513cf7436092f6e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:37 +0000
Subject: [PATCH 100/100] fix: a schema keeps its default values when the cache
 it came from is replaced

---
 src/common/clients/meta/MetaClient.cpp | 4 +++-
 src/common/clients/meta/MetaClient.h   | 5 +++--
 src/common/meta/NebulaSchemaProvider.h | 7 +++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index faa6b01..b4827a9 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -353,7 +353,7 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
         if (hasDef) {
             auto encoded = *col.get_default_value();
             defaultValueExpr = Expression::decode(
-                &(spaceInfoCache->pool_), folly::StringPiece(encoded.data(), encoded.size()));
+                spaceInfoCache->pool_.get(), folly::StringPiece(encoded.data(), encoded.size()));
 
             if (defaultValueExpr == nullptr) {
                 LOG(ERROR) << "Wrong expr default value for column name: " << col.get_name();
@@ -371,6 +371,7 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
     for (auto& tagIt : tagItemVec) {
         // meta will return the different version from new to old
         auto schema = std::make_shared<NebulaSchemaProvider>(tagIt.get_version());
+        schema->setPool(spaceInfoCache->pool_);
         for (const auto& colIt : tagIt.get_schema().get_columns()) {
             addSchemaField(schema.get(), colIt);
         }
@@ -405,6 +406,7 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
     for (auto& edgeIt : edgeItemVec) {
         // meta will return the different version from new to old
         auto schema = std::make_shared<NebulaSchemaProvider>(edgeIt.get_version());
+        schema->setPool(spaceInfoCache->pool_);
         for (const auto& col : edgeIt.get_schema().get_columns()) {
             addSchemaField(schema.get(), col);
         }
diff --git a/src/common/clients/meta/MetaClient.h b/src/common/clients/meta/MetaClient.h
index 3637b70..13ec49d 100644
--- a/src/common/clients/meta/MetaClient.h
+++ b/src/common/clients/meta/MetaClient.h
@@ -66,8 +66,9 @@ struct SpaceInfoCache {
     Indexes tagIndexes_;
     Indexes edgeIndexes_;
     Listeners listeners_;
-    // objPool used to decode when adding field
-    ObjectPool pool_;
+    // objPool used to decode when adding field, shared with the schemas as these are handed
+    // out and may be held longer than the cache
+    std::shared_ptr<ObjectPool> pool_{std::make_shared<ObjectPool>()};
     std::unordered_map<PartitionID, TermID> termOfPartition_;
 };
 
diff --git a/src/common/meta/NebulaSchemaProvider.h b/src/common/meta/NebulaSchemaProvider.h
index 6009e1c..588dc4e 100644
--- a/src/common/meta/NebulaSchemaProvider.h
+++ b/src/common/meta/NebulaSchemaProvider.h
@@ -8,6 +8,7 @@
 #define COMMON_META_NEBULASCHEMAPROVIDER_H_
 
 #include "common/base/Base.h"
+#include "common/base/ObjectPool.h"
 #include "common/base/StatusOr.h"
 #include <folly/RWSpinLock.h>
 #include "common/meta/SchemaProviderIf.h"
@@ -113,6 +114,11 @@ public:
 
     void setProp(cpp2::SchemaProp schemaProp);
 
+    // Keep the pool owning the default values for as long as the schema
+    void setPool(std::shared_ptr<ObjectPool> pool) {
+        pool_ = std::move(pool);
+    }
+
     const cpp2::SchemaProp getProp() const;
 
     StatusOr<std::pair<std::string, int64_t>> getTTLInfo() const;
@@ -128,6 +134,7 @@ protected:
     std::vector<SchemaField>                    fields_;
     size_t                                      numNullableFields_;
     cpp2::SchemaProp                            schemaProp_;
+    std::shared_ptr<ObjectPool>                 pool_;
 };
 
 }  // namespace meta
-- 
2.43.0

