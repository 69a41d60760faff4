From 231ff72c1498baafe51ec8f222fa89890a540a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 01/32] fix: SimpleQueue reports a moved-from queue as empty

---
 gmlc/containers/SimpleQueue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..d9e2aff 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -64,6 +64,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -74,6 +75,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From fb7eb4031026e871c21fb00e7a894cc18964b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 02/32] fix: SimpleQueue::pushVector of no elements leaves the
 queue empty

---
 gmlc/containers/SimpleQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index d9e2aff..7f5f33c 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -145,6 +145,9 @@ atomic flag indicating the queue is empty
         */
         void pushVector(const std::vector<X>& val)  // universal reference
         {
+            if (val.empty()) {
+                return;  // nothing to add, the empty flag must not change
+            }
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-- 
2.43.0


From 9ec7e52d22f5e50abc4107a47adbf6a724af1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 03/32] fix: moving a blocking queue resets the source and
 wakes waiting consumers

---
 gmlc/containers/BlockingPriorityQueue.hpp | 4 ++++
 gmlc/containers/BlockingQueue.hpp         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..cc0b835 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -78,6 +78,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -89,6 +90,9 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;
+            // the moved in elements may satisfy a waiting consumer
+            condition.notify_all();
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..b85228a 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -71,6 +71,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -81,6 +82,9 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
+            // the moved in elements may satisfy a waiting consumer
+            condition.notify_all();
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 20a6fd23d8367d39c45e5425da41dd4c89fafdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 04/32] fix: BlockingQueue consumers re-establish the empty
 flag before waiting

---
 gmlc/containers/BlockingQueue.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index b85228a..2a8ea00 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -220,10 +220,14 @@ contention the two locks will reduce contention in most cases.
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
                     m_pullLock);  // get the lock then wait
+                // collect pending pushes or mark the queue empty so that the next
+                // push knows to notify
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -231,6 +235,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -248,10 +253,14 @@ contention the two locks will reduce contention in most cases.
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
                     m_pullLock);  // get the lock then wait
+                // collect pending pushes or mark the queue empty so that the next
+                // push knows to notify
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -259,6 +268,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -286,11 +296,15 @@ contention the two locks will reduce contention in most cases.
                 // may be spurious so make sure actually have a value
                 callOnWaitFunction();
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+                // collect pending pushes or mark the queue empty so that the next
+                // push knows to notify
+                checkPullAndSwap();
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -298,6 +312,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From cdf70c6f16c54a22453d03e0a37e6a3d0f9f448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 05/32] fix: BlockingPriorityQueue consumers re-establish the
 empty flag before waiting

---
 gmlc/containers/BlockingPriorityQueue.hpp | 24 ++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index cc0b835..788bcbe 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -272,24 +272,31 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
+                // collect pending pushes or mark the queue empty so that the next
+                // push knows to notify
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -311,12 +318,17 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
+                // collect pending pushes or mark the queue empty so that the next
+                // push knows to notify
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -324,12 +336,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -362,13 +376,18 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
+                // collect pending pushes or mark the queue empty so that the next
+                // push knows to notify
+                checkPullAndSwap();
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -376,11 +395,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -411,7 +432,7 @@ any meaning depending on the number of consumers
                     // after the swap call;
                     pushLock.unlock();
                     std::reverse(pullElements.begin(), pullElements.end());
-                } else {
+                } else if (priorityQueue.empty()) {
                     queueEmptyFlag = true;
                 }
             }
@@ -425,6 +446,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkPullAndSwap();
             return val;
         }
         checkPullAndSwap();
-- 
2.43.0


From 5379ced62b0728ebe1b7fa79660e12a3039c997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 06/32] fix: CircularBuffer keeps blocks and its empty state
 intact at the end of the memory block

---
 gmlc/containers/CircularBuffer.hpp | 48 +++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..b07b522 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,7 +29,7 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
-            if (next_write >= next_read) {
+            if (!wrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
                     return true;
@@ -50,16 +50,17 @@ namespace containers {
             if (blockSize <= 0 || data == nullptr) {
                 return false;
             }
-            if (next_write >= next_read) {
+            if (!wrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
                     memcpy(next_write, &blockSize, sizeof(int));
                     // *(reinterpret_cast<int *>(next_write)) = blockSize;
                     memcpy(next_write + 4, data, blockSize);
                     next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                    ++dataCount;
                     // loop around if there isn't really space for another block
-                    // of at least 4 bytes and the next_read>origin
-                    if (((capacity_ - (next_write - origin)) < 8) &&
+                    // of at least 1 byte and the next_read>origin
+                    if (((capacity_ - (next_write - origin)) < 5) &&
                         (next_read > origin)) {
                         next_write = origin;
                     }
@@ -67,11 +68,16 @@ namespace containers {
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    // the reader loops around by itself if there is no space
+                    // for another block
+                    if ((capacity_ - (next_write - origin)) >= 5) {
+                        int loc = -1;
+                        memcpy(next_write, &loc, sizeof(int));
+                    }
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    ++dataCount;
                     return true;
                 }
             } else if (
@@ -80,13 +86,14 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                ++dataCount;
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (dataCount == 0) {
                 return 0;
             }
             int size;
@@ -100,7 +107,7 @@ namespace containers {
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (dataCount == 0) {
                 return 0;
             }
             int size;
@@ -112,7 +119,10 @@ namespace containers {
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
-                if ((capacity_ - (next_read - origin)) < 8) {
+                --dataCount;
+                if (dataCount == 0) {
+                    next_write = next_read = origin;
+                } else if ((capacity_ - (next_read - origin)) < 5) {
                     next_read = origin;
                 }
                 return size;
@@ -120,15 +130,29 @@ namespace containers {
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (dataCount == 0); }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            dataCount = 0;
+        }
+
+      private:
+        /** check if the data loops around the end of the memory block, equal
+         * positions with data present indicate a completely full buffer*/
+        bool wrapped() const
+        {
+            return (next_write < next_read) ||
+                (next_write == next_read && dataCount > 0);
+        }
 
       private:
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        int dataCount{0};
 
       private:
         friend class CircularBuffer;
@@ -157,6 +181,7 @@ namespace containers {
             cb.actualSize = 0;
             cb.actualCapacity = 0;
             cb.buffer.capacity_ = 0;
+            cb.buffer.dataCount = 0;
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
@@ -191,6 +216,7 @@ namespace containers {
             data = std::move(cb.data);
 
             cb.buffer.capacity_ = 0;
+            cb.buffer.dataCount = 0;
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
-- 
2.43.0


From 2393fb559df8ae17dcb4d0a90dcc97531c4bab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 07/32] fix: copying a default constructed CircularBuffer does
 not leave a dangling pointer

---
 gmlc/containers/CircularBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index b07b522..907d31b 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -199,6 +199,7 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
             }
-- 
2.43.0


From 3ab29d8c648887c96dba6f9142f710f58f664e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 08/32] fix: StackBuffer and CircularBuffer release a zero
 sized memory block

---
 gmlc/containers/CircularBuffer.hpp | 13 ++++---------
 gmlc/containers/StackBuffer.hpp    |  9 +++------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 907d31b..6a8510f 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -169,9 +169,7 @@ namespace containers {
         }
         ~CircularBuffer()
         {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
+            delete[] data;
         }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
@@ -342,13 +340,10 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..3ea2119 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -315,13 +315,10 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From 9360de8407eb8b09a187d75a554af0387228ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 09/32] fix: StackBuffer move assignment resets the capacity of
 the source

---
 gmlc/containers/StackBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 3ea2119..a9b1b76 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -192,6 +192,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
-- 
2.43.0


From 360692487c3eea29492bba5880c47b1f6c079e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 10/32] fix: StackBuffer::resize keeps the position of the next
 data block

---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index a9b1b76..ff6302e 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -230,6 +230,7 @@ blocks of raw data
                 resizeMemory(newsize);
                 int indexOffset = stack.dataSize - diSize * stack.dataCount;
                 int newOffset = newsize - diSize * stack.dataCount;
+                int dataOffset = static_cast<int>(stack.next - stack.origin);
                 memmove(
                     data + newOffset,
                     data + indexOffset,
@@ -237,7 +238,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -258,7 +259,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 033bc1fb63a8b4f138494856f78d56c287a2a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 11/32] fix: self move assignment of StackBuffer and
 CircularBuffer keeps the content

---
 gmlc/containers/CircularBuffer.hpp | 3 +++
 gmlc/containers/StackBuffer.hpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 6a8510f..be3e98b 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -205,6 +205,9 @@ namespace containers {
 
         CircularBuffer& operator=(CircularBuffer&& cb) noexcept
         {
+            if (this == &cb) {
+                return *this;
+            }
             if (data != nullptr) {
                 delete[] data;
             }
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index ff6302e..8fafba7 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -185,6 +185,9 @@ blocks of raw data
 
         StackBuffer& operator=(StackBuffer&& sq) noexcept
         {
+            if (this == &sq) {
+                return *this;
+            }
             delete[] data;
             data = sq.data;
             statedSize = sq.statedSize;
-- 
2.43.0


From 369dfaefaba9c50f421bd59c36c325a4874ec478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 12/32] fix: WorkBlock can be default constructed without a
 task

---
 gmlc/containers/WorkQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..d297492 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -126,7 +126,9 @@ that can be executed, functionoid, or something that implements operator()
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -201,7 +203,9 @@ that can be executed
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         std::shared_future<void> get_future() { return future_ret; }
 
-- 
2.43.0


From 68893a7613638a97a65f00ccdcd51de7a149a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 13/32] fix: WorkQueue without workers skips null work blocks
 in a vector

---
 gmlc/containers/WorkQueue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index d297492..adefa38 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -402,7 +402,9 @@ value)
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    wb->execute();
+                    if (wb) {
+                        wb->execute();
+                    }
                 }
             }
         }
-- 
2.43.0


From ce03281978bf7ba9a94c75eecc77f765075a9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 14/32] fix: MappedVector removal drops exactly the search
 terms of the removed element

---
 gmlc/containers/MappedVector.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..2083d3a 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,17 +135,15 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -155,15 +153,7 @@ limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 736c7bf0f6997ebe23e3ea98deb52ed177dc4731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 15/32] fix: StringMappedVector::removeIndex keeps the empty
 name of another element

---
 gmlc/containers/StringMappedVector.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..6dad3d8 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,17 +124,15 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
-- 
2.43.0


From 77ce14b175de6765568f3be3dfb6faaa836ccbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 16/32] fix: MappedPointerVector removal drops exactly the
 search terms of the removed element

---
 gmlc/containers/MappedPointerVector.hpp | 27 +++++++++----------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..b6d55a0 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,17 +137,15 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            } else if (el2.second == index) {
-                ind = el2.first;
+        for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+            if (el2->second == index) {
+                el2 = lookup.erase(el2);
+                continue;
             }
-        }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
+            if (el2->second > index) {
+                el2->second -= 1;
+            }
+            ++el2;
         }
     }
     /** remove an element based on the lookup index*/
@@ -157,14 +155,7 @@ class MappedPointerVector {
         if (el == lookup.end()) {
             return;
         }
-        auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(el->second);
     }
 
     /** apply a function to all the values
-- 
2.43.0


From ab5ff536bfcf862843366d3b8d1ba1456765d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 17/32] fix: copies of a StringMappedVector refer to their own
 names

---
 gmlc/containers/StringMappedVector.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 6dad3d8..7b42bf7 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,23 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        StringMappedVector(StringMappedVector&& smv) = default;
+        StringMappedVector& operator=(StringMappedVector&& smv) = default;
+        /** copy constructor, the lookup must refer to the copied names*/
+        StringMappedVector(const StringMappedVector& smv) :
+            dataStorage(smv.dataStorage)
+        {
+            for (auto& el : smv.lookup) {
+                names.emplace_back(el.first);
+                lookup.emplace(names.back(), el.second);
+            }
+        }
+        StringMappedVector& operator=(const StringMappedVector& smv)
+        {
+            *this = StringMappedVector(smv);
+            return *this;
+        }
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
-- 
2.43.0


From 9ea3473a277cd5abc6d7c3fce14204bacf996c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 18/32] fix: DualMappedPointerVector removal drops exactly the
 search terms of the removed element

---
 gmlc/containers/DualMappedPointerVector.hpp | 78 +++++----------------
 1 file changed, 18 insertions(+), 60 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..701fdb3 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,29 +251,25 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
+            for (auto el2 = lookup1.begin(); el2 != lookup1.end();) {
+                if (el2->second == index) {
+                    el2 = lookup1.erase(el2);
+                    continue;
                 }
-            }
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
+                if (el2->second > index) {
+                    el2->second -= 1;
                 }
+                ++el2;
             }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
+            for (auto el2 = lookup2.begin(); el2 != lookup2.end();) {
+                if (el2->second == index) {
+                    el2 = lookup2.erase(el2);
+                    continue;
+                }
+                if (el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -283,26 +279,7 @@ namespace containers {
             if (el == lookup1.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(el->second);
         }
 
         void remove(const searchType2& search)
@@ -311,26 +288,7 @@ namespace containers {
             if (el == lookup2.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 61f34975e896a91fc16452964f3a356b17062976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 19/32] fix: DualMappedPointerVector::at returns the stored
 pointer

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 701fdb3..1783dfa 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -239,7 +239,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
-- 
2.43.0


From 473ae8581bb959640c1e15d419e53bd450b754e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 20/32] fix: removal compiles for string mapped vectors with
 unstable storage

---
 gmlc/containers/DualStringMappedVector.hpp | 5 +++++
 gmlc/containers/StringMappedVector.hpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..baf86c1 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -412,6 +412,11 @@ or by numerical index
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 7b42bf7..f86c496 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -216,6 +216,11 @@ with limited to no removal since removal is a rather expensive operation
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From c79c869814ca61841af67311b2b35e8d8009cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 21/32] fix: copies of a DualStringMappedVector refer to their
 own names

---
 gmlc/containers/DualStringMappedVector.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index baf86c1..6f59075 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -38,6 +38,24 @@ or by numerical index
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualStringMappedVector() = default;
+        DualStringMappedVector(DualStringMappedVector&& smv) = default;
+        DualStringMappedVector&
+            operator=(DualStringMappedVector&& smv) = default;
+        /** copy constructor, the lookup must refer to the copied names*/
+        DualStringMappedVector(const DualStringMappedVector& smv) :
+            dataStorage(smv.dataStorage), lookup2(smv.lookup2)
+        {
+            for (auto& el : smv.lookup1) {
+                names.emplace_back(el.first);
+                lookup1.emplace(names.back(), el.second);
+            }
+        }
+        DualStringMappedVector& operator=(const DualStringMappedVector& smv)
+        {
+            *this = DualStringMappedVector(smv);
+            return *this;
+        }
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
-- 
2.43.0


From f2a82e8dfd15481eea8315053eedc67b4a5f3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 22/32] fix: an empty sized or copied StableBlockDeque starts
 with consistent ends

---
 gmlc/containers/StableBlockDeque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..2e33488 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -58,7 +58,8 @@ and deallocate methods)*/
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -127,7 +128,8 @@ and deallocate methods)*/
                 Allocator a;
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             }
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
-- 
2.43.0


From 4011b311734fdee9803e8f37fe49e34594af9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 23/32] fix: StableBlockDeque::clear only destroys live
 elements

---
 gmlc/containers/StableBlockDeque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 2e33488..c116509 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -323,7 +323,9 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            const int first =
+                (dataSlotFront == dataSlotBack) ? fsize + 1 : 0;
+            for (int jj = bsize - 1; jj >= first;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
-- 
2.43.0


From 1b27f39020226afb94cb33185c444a3ffa09a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 24/32] fix: push_front on an empty StableBlockDeque with
 single element blocks

---
 gmlc/containers/StableBlockDeque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index c116509..48a308f 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -518,7 +518,7 @@ and deallocate methods)*/
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
+                    fsize = (blockSize - 1) / 2;
                     bsize = fsize + 1;
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
-- 
2.43.0


From 52f3ced3588680945c15a3393d76f30b3f731d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 25/32] fix: copying an empty StableBlockVector

---
 gmlc/containers/StableBlockVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..b944d74 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -81,7 +81,7 @@ no erase or insert
 
         StableBlockVector(const StableBlockVector& sbv)
         {
-            if (sbv.dataptr != nullptr) {
+            if (sbv.csize > 0) {
                 dataptr = new X*[sbv.dataSlotsAvailable];
                 dataSlotsAvailable = sbv.dataSlotsAvailable;
                 dataSlotIndex = -1;
-- 
2.43.0


From de3097e5a9b7225f4b77748f1f5dc55d59298049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 26/32] fix: the end iterator of a stable block container stays
 inside the slot table

---
 gmlc/containers/StableBlockDeque.hpp  | 7 ++++---
 gmlc/containers/StableBlockVector.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 48a308f..258ae45 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,9 +50,9 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 4, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 2, 64))
+                std::max(static_cast<int>(startSize >> N) + 4, 64))
         {
             Allocator a;
             if (startSize == 0) {
@@ -488,7 +488,8 @@ and deallocate methods)*/
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
-                if (dataSlotBack >= dataSlotsAvailable - 1) {
+                // iterators at the end may refer to the slot after the last
+                if (dataSlotBack >= dataSlotsAvailable - 2) {
                     if (dataSlotFront > 5) {  // shift the pointers
                         std::copy(
                             dataptr + dataSlotFront,
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index b944d74..8efcdcd 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -53,9 +53,9 @@ no erase or insert
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 1, 64)),
+                std::max(static_cast<int>(startSize >> N) + 2, 64)),
             dataSlotIndex(static_cast<int>(startSize >> N)),
             bsize(static_cast<int>(startSize & cntmask))
         {
@@ -382,7 +382,8 @@ no erase or insert
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
+                } else if (dataSlotIndex >= dataSlotsAvailable - 2) {
+                    // iterators at the end may refer to the slot after the last
                     auto mem =
                         new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
-- 
2.43.0


From 45f2a1a55ccd56698248d0f393e3b06bb683a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 27/32] fix: moved-from stable block containers are empty and
 reusable

---
 gmlc/containers/StableBlockDeque.hpp  | 8 ++++++++
 gmlc/containers/StableBlockVector.hpp | 9 +++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 258ae45..f6b7f6e 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -144,6 +144,10 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.freeIndex = 0;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
         }
@@ -171,6 +175,10 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.freeIndex = 0;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
             return *this;
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 8efcdcd..3555740 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -100,8 +100,9 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.freeIndex = 0;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
             sbv.csize = 0;
         }
 
@@ -126,6 +127,10 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
+            sbv.freeIndex = 0;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.csize = 0;
 
             return *this;
         }
-- 
2.43.0


From 5426214ce037e6944f51bdde068e718e281d8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 28/32] fix: self move assignment of stable block containers
 keeps the content

---
 gmlc/containers/StableBlockDeque.hpp  | 3 +++
 gmlc/containers/StableBlockVector.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index f6b7f6e..a4637c4 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -159,6 +159,9 @@ and deallocate methods)*/
         }
         StableBlockDeque& operator=(StableBlockDeque&& sbd) noexcept
         {
+            if (this == &sbd) {
+                return *this;
+            }
             freeAll();
             csize = sbd.csize;
             dataptr = sbd.dataptr;
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 3555740..2b3c962 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -113,6 +113,9 @@ no erase or insert
         }
         StableBlockVector& operator=(StableBlockVector&& sbv) noexcept
         {
+            if (this == &sbv) {
+                return *this;
+            }
             freeAll();
             csize = sbv.csize;
             dataptr = sbv.dataptr;
-- 
2.43.0


From 5bcca5bfb6d0d92a0269f0990203713e11fa9a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 29/32] fix: a throwing element constructor leaves stable block
 containers unchanged

---
 gmlc/containers/StableBlockDeque.hpp  | 18 ++++++++++++------
 gmlc/containers/StableBlockVector.hpp |  9 ++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index a4637c4..f91865e 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -193,21 +193,24 @@ and deallocate methods)*/
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++]))
+            new (&(dataptr[dataSlotBack][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -230,21 +233,24 @@ and deallocate methods)*/
         void emplace_front(Args&&... args)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--]))
+            new (&(dataptr[dataSlotFront][fsize]))
                 X(std::forward<Args>(args)...);
+            --fsize;
             ++csize;
         }
 
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            --fsize;
             ++csize;
         }
 
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 2b3c962..b69bd08 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -144,8 +144,9 @@ no erase or insert
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++]))
+            new (&(dataptr[dataSlotIndex][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
@@ -153,14 +154,16 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val) noexcept(
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
-- 
2.43.0


From 5a06c167f3001ead0ba192e0142c8d524da0bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 30/32] fix: BlockIterator crosses blocks when moved by a
 negative amount

---
 gmlc/containers/BlockIterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..2e0edab 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();
             return (*this);
         }
         BlockIterator& operator++()
@@ -102,6 +103,7 @@ namespace containers {
             ptr -= movement;
             offset -= static_cast<int>(movement);
             checkNeg();
+            check();
             return (*this);
         }
         BlockIterator& operator--()
-- 
2.43.0


From 4300d9e14134937c8ba2a1cd49e3043537996137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 31/32] fix: BlockIterator difference_type is a signed integer

---
 gmlc/containers/BlockIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index 2e0edab..e2f3a91 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -25,7 +25,7 @@ namespace containers {
       public:
         using iterator_category = std::bidirectional_iterator_tag;
         using value_type = X;
-        using difference_type = X;
+        using difference_type = ptrdiff_t;
         using pointer = const typename std::remove_const<X>::type*;
         using reference = const typename std::remove_const<X>::type&;
         using constref = const typename std::remove_const<X>::type;
-- 
2.43.0


From 58fcaa0eb1f3bcfef96feefa3cfc027b55441569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 32/32] fix: a throwing element constructor leaves the empty
 flag of blocking queues consistent

---
 gmlc/containers/BlockingPriorityQueue.hpp | 32 ++++++++++++++++-------
 gmlc/containers/BlockingQueue.hpp         | 18 ++++++++-----
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 788bcbe..252df0a 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -121,6 +121,9 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
+                // construct the element first, if that throws the flag must
+                // still tell that the queue is empty
+                T newElement(std::forward<Z>(val));
                 bool expEmpty = true;
                 if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                     // release the push lock so we don't get a potential
@@ -130,16 +133,16 @@ the two locks will reduce contention in most cases.
                         m_pullLock);  // first pullLock
                     queueEmptyFlag = false;
                     if (pullElements.empty()) {
-                        pullElements.push_back(std::forward<Z>(val));
+                        pullElements.push_back(std::move(newElement));
                         // pullLock.unlock ();
                     } else {
                         pushLock.lock();
-                        pushElements.push_back(std::forward<Z>(val));
+                        pushElements.push_back(std::move(newElement));
                     }
                     condition.notify_all();
                     return;
                 } else {
-                    pushElements.push_back(std::forward<Z>(val));
+                    pushElements.push_back(std::move(newElement));
                     expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
@@ -157,17 +160,20 @@ the two locks will reduce contention in most cases.
         template<class Z>
         void pushPriority(Z&& val)  // forwarding reference
         {
+            // construct the element first, if that throws the flag must still
+            // tell that the queue is empty
+            T newElement(std::forward<Z>(val));
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
                 queueEmptyFlag = false;  // need to set the flag again just in
                                          // case after we get the lock
-                priorityQueue.push(std::forward<Z>(val));
+                priorityQueue.push(std::move(newElement));
                 // pullLock.unlock ();
                 condition.notify_all();
             } else {
                 std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.push(std::forward<Z>(val));
+                priorityQueue.push(std::move(newElement));
                 expEmpty = true;
                 if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                     condition.notify_all();
@@ -182,6 +188,9 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
+                // construct the element first, if that throws the flag must
+                // still tell that the queue is empty
+                T newElement(std::forward<Args>(args)...);
                 bool expEmpty = true;
                 if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                     // release the push lock so we don't get a potential
@@ -192,16 +201,16 @@ the two locks will reduce contention in most cases.
                     queueEmptyFlag = false;  // need to set the flag again after
                                              // we get the lock
                     if (pullElements.empty()) {
-                        pullElements.emplace_back(std::forward<Args>(args)...);
+                        pullElements.emplace_back(std::move(newElement));
                     } else {
                         pushLock.lock();
-                        pushElements.emplace_back(std::forward<Args>(args)...);
+                        pushElements.emplace_back(std::move(newElement));
                     }
 
                     condition.notify_all();
                     return;
                 } else {
-                    pushElements.emplace_back(std::forward<Args>(args)...);
+                    pushElements.emplace_back(std::move(newElement));
                     expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
@@ -219,17 +228,20 @@ the two locks will reduce contention in most cases.
         template<class... Args>
         void emplacePriority(Args&&... args)
         {
+            // construct the element first, if that throws the flag must still
+            // tell that the queue is empty
+            T newElement(std::forward<Args>(args)...);
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
                 queueEmptyFlag = false;  // need to set the flag again just in
                                          // case after we get the lock
-                priorityQueue.emplace(std::forward<Args>(args)...);
+                priorityQueue.emplace(std::move(newElement));
                 // pullLock.unlock ();
                 condition.notify_all();
             } else {
                 std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.emplace(std::forward<Args>(args)...);
+                priorityQueue.emplace(std::move(newElement));
                 expEmpty = true;
                 if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                     condition.notify_all();
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 2a8ea00..0cdc8dc 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -122,6 +122,9 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
+                // construct the element first, if that throws the flag must
+                // still tell that the queue is empty
+                T newElement(std::forward<Z>(val));
                 bool expEmpty = true;
                 if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                     // release the push lock so we don't get a potential
@@ -131,16 +134,16 @@ contention the two locks will reduce contention in most cases.
                         m_pullLock);  // first pullLock
                     queueEmptyFlag = false;
                     if (pullElements.empty()) {
-                        pullElements.push_back(std::forward<Z>(val));
+                        pullElements.push_back(std::move(newElement));
                     } else {
                         pushLock.lock();
-                        pushElements.push_back(std::forward<Z>(val));
+                        pushElements.push_back(std::move(newElement));
                     }
                     // pullLock.unlock ();
                     condition.notify_all();
                     return;
                 } else {
-                    pushElements.push_back(std::forward<Z>(val));
+                    pushElements.push_back(std::move(newElement));
                     expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
@@ -159,6 +162,9 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
+                // construct the element first, if that throws the flag must
+                // still tell that the queue is empty
+                T newElement(std::forward<Args>(args)...);
                 bool expEmpty = true;
                 if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
                     // release the push lock so we don't get a potential
@@ -168,17 +174,17 @@ contention the two locks will reduce contention in most cases.
                         m_pullLock);  // first pullLock
                     queueEmptyFlag = false;
                     if (pullElements.empty()) {
-                        pullElements.emplace_back(std::forward<Args>(args)...);
+                        pullElements.emplace_back(std::move(newElement));
                     } else {
                         pushLock.lock();
-                        pushElements.emplace_back(std::forward<Args>(args)...);
+                        pushElements.emplace_back(std::move(newElement));
                     }
 
                     // pullLock.unlock ();
                     condition.notify_all();
                     return;
                 } else {
-                    pushElements.emplace_back(std::forward<Args>(args)...);
+                    pushElements.emplace_back(std::move(newElement));
                     expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
-- 
2.43.0

