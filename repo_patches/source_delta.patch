From aeb680dc1ab2868135bf9844718ebcf89fadd6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 01/74] fix: report frame queues as full at exactly 90% of
 their size

The comparison mixed a float quotient with a double threshold, so a queue of
10 frames (the size of every raw video queue) was never considered full.
---
 src/AVFramedQueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 7de8744..5fc29d4 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -114,7 +114,7 @@ unsigned AVFramedQueue::getElements() const
 
 bool AVFramedQueue::isFull() const
 {
-    return ((float) getElements())/max >= FULL_THRESHOLD;
+    return ((double) getElements())/max >= FULL_THRESHOLD;
 }
 
 ////////////////////////////////////////////
-- 
2.43.0


From 93f94c8906df441f53353f874036996f0ce9b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 02/74] fix: pop the job being started from the task queue, not
 the one at its front

When the first queued jobs were running, the worker skipped them but TaskQueue::pop() removed
the first one: its wake-up was lost and the started job remained queued.
---
 src/WorkersPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index a0a069a..78aec47 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -39,9 +39,9 @@ void TaskQueue::pushBack(Runnable *run){
 }
 
 void TaskQueue::pop(){
-    if (!queue.empty()){
-        sQueue.erase(queue.front());
-        queue.pop_front();
+    if (iter != queue.end()){
+        sQueue.erase(*iter);
+        queue.erase(iter);
         resetIterator();
     }
 }
-- 
2.43.0


From 6c602c41b95c011d8300c830159d6ed9ab20c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 03/74] fix: do not leave removed tasks in the queue nor return
 while a worker still uses them

removeTask() left the runnable in the queue of the pool, and polled its running flag without the
lock while the worker still had to look for pending jobs after clearing it, so that a task
destroyed after its removal was used by the workers.
---
 src/WorkersPool.cpp | 17 +++++++++++++++--
 src/WorkersPool.hh  |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 78aec47..aea2792 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -46,6 +46,17 @@ void TaskQueue::pop(){
     }
 }
 
+void TaskQueue::remove(Runnable *run){
+    for (std::deque<Runnable*>::iterator it = queue.begin(); it != queue.end(); ++it){
+        if (*it == run){
+            sQueue.erase(run);
+            queue.erase(it);
+            break;
+        }
+    }
+    resetIterator();
+}
+
 void TaskQueue::resetIterator(){
     iter = queue.begin();
 }
@@ -53,6 +64,7 @@ void TaskQueue::resetIterator(){
 void TaskQueue::clear(){
     queue.clear();
     sQueue.clear();
+    resetIterator();
 }
 
 Runnable* TaskQueue::current(){
@@ -132,6 +144,7 @@ WorkersPool::WorkersPool(size_t threads) : run(true)
                     }
                     
                     guard.unlock();
+                    jobDone.notify_all();
                     if (added){
                         qCheck.notify_one();
                     }
@@ -182,11 +195,11 @@ bool WorkersPool::removeTask(const int id)
     if (runnables.count(id) > 0){
         Runnable *runnable = runnables[id];
         runnables.erase(id);
-        guard.unlock();
+        queue.remove(runnable);
         qCheck.notify_one();
         while(runnable->isRunning()){
             utils::warningMsg("awaiting task to finish " + std::to_string(id));
-            std::this_thread::sleep_for(std::chrono::milliseconds(100));
+            jobDone.wait(guard);
         }
         return true;
     }
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 62e9019..78ced3b 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -42,6 +42,8 @@ public:
     
     void pop();
     
+    void remove(Runnable *run);
+    
     void resetIterator();
     
     void clear();
@@ -73,6 +75,7 @@ private:
     std::vector<std::thread>    workers;
     std::mutex                  mtx;
     std::condition_variable     qCheck;
+    std::condition_variable     jobDone;
     std::map<int, Runnable*>    runnables;
     TaskQueue                   queue;
     bool                        run;
-- 
2.43.0


From 3cca42be9908f8d97ed0292efd29f77a822e2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 04/74] fix: stop the workers pool under its lock

A worker between checking the flag and waiting missed the notification and kept sleeping until the
next job was due, and the queue was cleared while a task could be being added.
---
 src/WorkersPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index aea2792..9e474cb 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -162,13 +162,16 @@ WorkersPool::~WorkersPool()
 
 void WorkersPool::stop()
 {
+    std::unique_lock<std::mutex> guard(mtx);
     run = false;
+    guard.unlock();
     qCheck.notify_all();
     for (std::thread &worker : workers){
         if (worker.joinable()){
             worker.join();
         }
     }
+    guard.lock();
     queue.clear();
 }
 
-- 
2.43.0


From 12d85565f4a1c8267fa82233bb57eb8724097930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 05/74] fix: let the filters sharing a reader go on when
 another one of them leaves

The frame in use was only released by the removeFrame() of its last consumer: if that consumer
disconnected instead, the others were never told about any other frame. Releasing without a
current frame is ignored instead of dereferencing NULL, and a detached reader forgets its frame.
---
 src/IOInterface.cpp | 21 +++++++++++++++------
 src/IOInterface.hh  |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..9f02f4b 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -53,6 +53,8 @@ bool Reader::disconnectQueue()
     }
     
     queue = NULL;
+    frame = NULL;
+    ready = true;
     
     return true;
 }
@@ -127,14 +129,19 @@ int Reader::removeFrame(int fId)
         filters[fId].second = false;
     }
     
-    if (allRead()){
-        measureDelay();
-        frame = NULL;
-        ready = true;
-        return queue ? queue->removeFrame() : -1;
+    return releaseFrame();
+}
+
+int Reader::releaseFrame()
+{
+    if (!frame || !allRead()){
+        return -1;
     }
     
-    return -1;
+    measureDelay();
+    frame = NULL;
+    ready = true;
+    return queue ? queue->removeFrame() : -1;
 }
 
 void Reader::measureDelay()
@@ -205,6 +212,8 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //NOTE: the remaining filters may have been waiting just for this one
+        releaseFrame();
         return true;
     }
     
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index 02d2a58..ed53b3f 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -208,6 +208,7 @@ private:
     bool disconnectQueue();
     void measureDelay();
     bool allRead();
+    int releaseFrame();
 
     friend class Writer;
      
-- 
2.43.0


From 24795ed72ff892fc2665e82dbe77a62acdcaea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 06/74] fix: read the time and fullness of a shared reader
 under its lock

Another filter sharing the reader may be releasing its frame or detaching its queue at that moment.
---
 src/IOInterface.cpp | 10 ++++++----
 src/IOInterface.hh  |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 9f02f4b..2b0460c 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -242,13 +242,13 @@ size_t Reader::getQueueElements()
 
 std::chrono::microseconds Reader::getCurrentTime()
 {
+    std::lock_guard<std::mutex> guard(lck);
+    
     if (frame){
         return frame->getFrameTime();
     }
     
-    Frame *f;
-    
-    f = queue->getFront();
+    Frame *f = queue ? queue->getFront() : NULL;
     if (f){
         return f->getFrameTime();
     }
@@ -258,7 +258,9 @@ std::chrono::microseconds Reader::getCurrentTime()
 
 bool Reader::isFull() const
 {
-    return queue->isFull(); 
+    std::lock_guard<std::mutex> guard(lck);
+    
+    return queue && queue->isFull();
 }
 
 
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index ed53b3f..88309b0 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -217,7 +217,7 @@ private:
     std::map<int, std::pair<bool, bool>> filters;
     bool ready;
     
-    std::mutex lck;
+    mutable std::mutex lck;
 
     //Stats
     std::chrono::microseconds avgDelay;
-- 
2.43.0


From 8cf26f566db92c7cc55340bf661a5bbe503f2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 07/74] fix: leave both filters as they were when a connection
 is refused

---
 src/Filter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..8375a7d 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -130,7 +130,7 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
     std::shared_ptr<Reader> r (new Reader());
     
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
     readers[readerID] = r;
@@ -325,6 +325,11 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     ConnectionData cData;
     ReaderData reader;
     
+    if (R == this) {
+        utils::errorMsg("A filter cannot be connected to itself");
+        return false;
+    }
+
     processEvent();
     R->processEvent();
 
@@ -353,6 +358,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     }
 
     if (!(r = R->setReader(readerID, queue))) {
+        delete queue;
         deleteWriter(writerID);
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
-- 
2.43.0


From c9370a3bcfa30f28f18430b97ab45ad3f0130cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 08/74] fix: share a reader under the lock of the filter that
 gets it and only while it has inputs left

---
 src/Filter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 8375a7d..8f9603d 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -251,13 +251,14 @@ bool BaseFilter::pendingJobs()
 
 bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
 {
-    std::lock_guard<std::mutex> guard(mtx);  
-    
     if (getId() == shared->getId()){
         utils::errorMsg("Shared filter and base filter are the same!!");
         return false;
     }
     
+    std::lock_guard<std::mutex> guard(mtx);  
+    std::lock_guard<std::mutex> sharedGuard(shared->mtx);
+    
     if (!(readers.count(orgRId) > 0)) {
         utils::errorMsg("The reader to share is not there");
         return false;
@@ -268,11 +269,16 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
-    if (shared->isRConnected(sharedRId)){
+    if (shared->readers.count(sharedRId) > 0){
         utils::errorMsg("The shared filter has the reader already connected!");
         return false;
     }
     
+    if (shared->readers.size() >= shared->getMaxReaders()){
+        utils::errorMsg("The shared filter has no reader available!");
+        return false;
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From ee6452bc69494376b543a99445aeead267b6727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 09/74] fix: do not hold the lock of the filter while sending
 an event to another one

---
 src/Filter.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 8f9603d..3b0690e 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -747,16 +747,19 @@ bool BaseFilter::demandOriginFramesFrameTime(std::map<int, Frame*> &oFrames, std
 
 void BaseFilter::sendEvent(Event e, int readerId)
 {
-    std::lock_guard<std::mutex> guard(mtx);
     ConnectionData cData;
     
-    if (readers.count(readerId)<= 0){
-        return;
-    }
-    if (readers[readerId]->isConnected()){
+    {
+        std::lock_guard<std::mutex> guard(mtx);
+    
+        if (readers.count(readerId)<= 0 || !readers[readerId]->isConnected()){
+            return;
+        }
         cData = readers[readerId]->getQueue()->getCData();
-        PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
     }
+
+    //NOTE: the lock of another filter must not be taken while holding this one
+    PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
 }
 
 OneToOneFilter::OneToOneFilter(FilterRole fRole_, bool periodic) :
-- 
2.43.0


From bb088a0985732c904719205f06f1f265603d773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 10/74] fix: do not use the frame of a writer disconnected
 while demanding it

---
 src/Filter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 3b0690e..9b2c7ab 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -189,6 +189,12 @@ bool BaseFilter::demandDestinationFrames(std::map<int, Frame*> &dFrames)
         }
 
         Frame *f = it->second->getFrame(true);
+        if (!f) {
+            //NOTE: it has been disconnected by its reader meanwhile
+            ++it;
+            continue;
+        }
+
         f->setConsumed(false);
         dFrames[it->first] = f;
         newFrame = true;
-- 
2.43.0


From 0c50c55dd016a7378b8e4e832a637b628d203e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 11/74] fix: connect the reader before the filter it belongs
 to, which may be running, can see it

---
 src/Filter.cpp | 18 +++++++++++-------
 src/Filter.hh  |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 9b2c7ab..45bac46 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -120,7 +120,7 @@ std::shared_ptr<Reader> BaseFilter::getReader(int id)
     return readers[id];
 }
 
-std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
+std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue, std::shared_ptr<Writer> writer)
 {
     std::lock_guard<std::mutex> guard(mtx);
     if (readers.size() >= getMaxReaders() || readers.count(readerID) > 0 ) {
@@ -133,6 +133,11 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
         return NULL;
     }
     
+    //NOTE: it must be connected before the filter, which may be running, can see it
+    if (!writer->connect(r)){
+        return NULL;
+    }
+    
     readers[readerID] = r;
 
     return r;
@@ -332,7 +337,6 @@ bool BaseFilter::deleteWriter(int writerID)
 
 bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
 {
-    std::shared_ptr<Reader> r;
     FrameQueue *queue = NULL;
     ConnectionData cData;
     ReaderData reader;
@@ -369,16 +373,16 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
         return false;
     }
 
-    if (!(r = R->setReader(readerID, queue))) {
-        delete queue;
+    writers[writerID]->setQueue(queue);
+
+    if (!R->setReader(readerID, queue, writers[writerID])) {
+        //NOTE: the queue, not connected, is deleted along with its writer
         deleteWriter(writerID);
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
     }
 
-    writers[writerID]->setQueue(queue);
-
-    return writers[writerID]->connect(r);
+    return true;
 }
 
 bool BaseFilter::connectOneToOne(BaseFilter *R)
diff --git a/src/Filter.hh b/src/Filter.hh
index 6b0869c..4b5a591 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -252,7 +252,7 @@ private:
     std::vector<int> regularProcessFrame(int& ret);
     std::vector<int> serverProcessFrame(int& ret);
 
-    std::shared_ptr<Reader> setReader(int readerID, FrameQueue* queue);
+    std::shared_ptr<Reader> setReader(int readerID, FrameQueue* queue, std::shared_ptr<Writer> writer);
     bool setWriter(int writerID);
     
     bool deleteReader(int readerId);
-- 
2.43.0


From 466867d79f67a91e3db6eec264f44bdc0343a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 12/74] fix: delete the queue of a link once when both ends
 disconnect at the same time

---
 src/FrameQueue.hh   |  7 +++++--
 src/IOInterface.cpp | 14 ++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 3bce029..9a77475 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -30,6 +30,7 @@
 
 #include <sys/time.h>
 #include <chrono>
+#include <atomic>
 #include <list>
 #include <vector>
 #include "Types.hh"
@@ -148,8 +149,10 @@ public:
     /**
     * Sets the queue as connected when it has a reader and a writer
     * @param boolean to set connected to true or false
+    * @return true if it was connected and false if not. The end that finds it already disconnected
+    * is the last one using it
     */
-    void setConnected(bool conn) {connected = conn;};
+    bool setConnected(bool conn) {return connected.exchange(conn);};
     
     /**
     * Get number of elements in the queue
@@ -221,7 +224,7 @@ public:
 protected:
     size_t rear;
     size_t front;
-    bool connected;
+    std::atomic<bool> connected;
     bool firstFrame;
     size_t lostBlocs;
 
diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 2b0460c..1d8ce6c 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -46,9 +46,8 @@ bool Reader::disconnectQueue()
         return false;
     }
 
-    if (queue->isConnected()) {
-        queue->setConnected(false);
-    } else {
+    //NOTE: the writer may be disconnecting too, only one of the two has to delete the queue
+    if (!queue->setConnected(false)) {
         delete queue;
     }
     
@@ -297,13 +296,12 @@ bool Writer::disconnect() const
         return false;
     }
 
-    if (queue->isConnected()) {
-        queue->setConnected(false);
-        queue = NULL;
-    } else {
+    //NOTE: the reader may be disconnecting too, only one of the two has to delete the queue
+    if (!queue->setConnected(false)) {
         delete queue;
-        queue = NULL;
     }
+
+    queue = NULL;
     return true;
 }
 
-- 
2.43.0


From 6c7e539c6e4aed5dd1903cd411142046f6bfefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 13/74] fix: let filters join and leave a shared reader while
 its writer adds frames

---
 src/AVFramedQueue.cpp         |  4 +---
 src/AudioCircularBuffer.cpp   |  4 +---
 src/FrameQueue.hh             | 25 ++++++++++++++++++++++++-
 src/SlicedVideoFrameQueue.cpp |  4 +---
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 5fc29d4..b4c50e6 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -66,9 +66,7 @@ std::vector<int> AVFramedQueue::addFrame()
 {
     std::vector<int> ret;
     
-    for (auto& r : connectionData.readers){
-        ret.push_back(r.rFilterId);
-    }
+    ret = getReaderFilters();
     
     if ((rear + 1) % max == front){
         return ret;
diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..c961a74 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -144,9 +144,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
     
     orgTime = inputFrame->getOriginTime();
     
-    for (auto& r : connectionData.readers){
-        ret.push_back(r.rFilterId);
-    }
+    ret = getReaderFilters();
     
     return ret;
 }
diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 9a77475..d7f277f 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -32,6 +32,7 @@
 #include <chrono>
 #include <atomic>
 #include <list>
+#include <mutex>
 #include <vector>
 #include "Types.hh"
 #include "StreamInfo.hh"
@@ -170,7 +171,10 @@ public:
     * Gets the connection cData.
     * @return the struct that contains the connection data.
     */
-    ConnectionData getCData() const {return connectionData;};
+    ConnectionData getCData() const {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+        return connectionData;
+    };
     
     /**
     * Adds reader to the CData
@@ -179,6 +183,8 @@ public:
     * @return true if the addition succeeded
     */
     bool addReaderCData(int rFilterId, int readerId) {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+
         for(auto r : connectionData.readers){
             if (r.rFilterId == rFilterId){
                 return false;
@@ -201,6 +207,8 @@ public:
     * @return true if the removal succeeded
     */
     bool removeReaderCData(int fId) {            
+        std::lock_guard<std::mutex> guard(cDataMtx);
+
         std::list<ReaderData>::iterator i = connectionData.readers.begin();
         while (i != connectionData.readers.end())
         {
@@ -222,6 +230,20 @@ public:
     const StreamInfo *getStreamInfo() const {return streamInfo;};
 
 protected:
+    /**
+    * Ids of the filters reading from the queue, which may join or leave while frames are added
+    */
+    std::vector<int> getReaderFilters() const {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+        std::vector<int> ids;
+
+        for (auto& r : connectionData.readers){
+            ids.push_back(r.rFilterId);
+        }
+
+        return ids;
+    };
+
     size_t rear;
     size_t front;
     std::atomic<bool> connected;
@@ -229,6 +251,7 @@ protected:
     size_t lostBlocs;
 
     ConnectionData connectionData;
+    mutable std::mutex cDataMtx;
 
     const StreamInfo *streamInfo;
 
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..e0eebef 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -71,9 +71,7 @@ std::vector<int> SlicedVideoFrameQueue::addFrame()
     
     std::vector<int> ret;
     
-    for (auto& r : connectionData.readers){
-        ret.push_back(r.rFilterId);
-    }
+    ret = getReaderFilters();
     
     return ret;
 }
-- 
2.43.0


From 8d6ff864ebef213a1446d5ec111dbadd65839fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 14/74] fix: do not let a disconnected input hold the others of
 a synchronised filter

---
 src/Filter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 45bac46..c01d996 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -601,8 +601,11 @@ std::vector<int> BaseFilter::framesSync()
     std::chrono::microseconds currentFTime;
     
     for(std::map<int, std::shared_ptr<Reader>>::iterator r = readers.begin() ; r != readers.end(); ){
-        if (!r->second){
+        if (!r->second || !r->second->isConnected()){
+            //NOTE: a disconnected input has nothing to wait for
+            int rId = r->first;
             ++r;
+            deleteReader(rId);
             continue;
         }
         allReaders.push_back(r->first);
@@ -642,7 +645,9 @@ std::vector<int> BaseFilter::framesSync()
 bool BaseFilter::deleteReader(int readerId)
 {
     if (readers.count(readerId) > 0){
-        readers[readerId]->disconnect(getId());
+        if (readers[readerId]) {
+            readers[readerId]->disconnect(getId());
+        }
         readers.erase(readerId);
         return specificReaderDelete(readerId);
     }
-- 
2.43.0


From 495ed2a0b370f2b5843a4ff3862a9bc7e5cb8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 15/74] fix: number the frames under the lock of the filter,
 its writers may be changing

---
 src/Filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index c01d996..73187f4 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -827,6 +827,8 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
         return false;
     }
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     for (auto it : dFrames) {
         if (it.second->getConsumed()){
             it.second->setOriginTime(std::chrono::high_resolution_clock::now());
@@ -903,6 +905,8 @@ bool ManyToOneFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
         return false;
     }
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     dFrames.begin()->second->setOriginTime(std::chrono::high_resolution_clock::now());
     dFrames.begin()->second->setSequenceNumber(seqNums[dFrames.begin()->first]++);
     return true;
-- 
2.43.0


From e86a510b316a021e2bf9c58e39e69303bd90e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 16/74] fix: keep the links released during the processing of a
 filter until it ends

---
 src/Filter.cpp | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 src/Filter.hh  |  6 ++++++
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 73187f4..177d171 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -32,7 +32,7 @@
 
 BaseFilter::BaseFilter(unsigned readersNum, unsigned writersNum, FilterRole fRole_, bool periodic): 
     Runnable(periodic), maxReaders(readersNum), maxWriters(writersNum),  frameTime(std::chrono::microseconds(0)), 
-    syncMargin(std::chrono::microseconds(DEFAULT_SYNC_MARGIN)), fRole(fRole_), syncTs(std::chrono::microseconds(0)), sync(false)
+    syncMargin(std::chrono::microseconds(DEFAULT_SYNC_MARGIN)), fRole(fRole_), syncTs(std::chrono::microseconds(0)), sync(false), processing(false)
 {
 }
 
@@ -217,7 +217,7 @@ std::vector<int> BaseFilter::addFrames(std::map<int, Frame*> &dFrames)
     for (auto it : dFrames){
         if (it.second->getConsumed()) {
             int wId = it.first;
-            if (writers.count(wId) > 0 && writers[wId]->isConnected()){
+            if (leavingWriters.count(wId) == 0 && writers.count(wId) > 0 && writers[wId]->isConnected()){
                 std::vector<int> addFrameReturn = writers[wId]->addFrame();
                 enabledJobs.insert(enabledJobs.begin(), addFrameReturn.begin(), addFrameReturn.end());
             }
@@ -238,7 +238,7 @@ bool BaseFilter::removeFrames(std::vector<int> framesToRemove)
     std::lock_guard<std::mutex> guard(mtx);
     
     for (auto id : framesToRemove){
-        if (readers.count(id) > 0){
+        if (leavingReaders.count(id) == 0 && readers.count(id) > 0){
             readers[id]->removeFrame(getId());
         } else {
             removed = false;
@@ -290,6 +290,13 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    for (auto it : shared->leavingReaders) {
+        if (it.second == readers[orgRId]){
+            utils::errorMsg("The shared filter is still leaving this reader!");
+            return false;
+        }
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
@@ -418,6 +425,12 @@ bool BaseFilter::disconnectWriter(int writerId)
         return true;
     }
 
+    if (processing && leavingWriters.count(writerId) == 0) {
+        //NOTE: its frame may be in use, it is disconnected when the processing ends
+        leavingWriters[writerId] = writers[writerId];
+        return deleteWriter(writerId);
+    }
+
     if (writers[writerId]->disconnect()){
         return deleteWriter(writerId);
     }
@@ -434,6 +447,13 @@ bool BaseFilter::disconnectReader(int readerId)
         return true;
     }
 
+    if (processing && leavingReaders.count(readerId) == 0) {
+        //NOTE: its frame may be in use, it is disconnected when the processing ends
+        leavingReaders[readerId] = readers[readerId];
+        readers.erase(readerId);
+        return specificReaderDelete(readerId);
+    }
+
     if (readers[readerId]->disconnect(getId())){
         return deleteReader(readerId);
     }
@@ -500,6 +520,11 @@ std::vector<int> BaseFilter::processFrame(int& ret)
 {
     std::vector<int> enabledJobs;
 
+    {
+        std::lock_guard<std::mutex> guard(mtx);
+        processing = true;
+    }
+
     switch(fRole) {
         case REGULAR:
             enabledJobs = regularProcessFrame(ret);
@@ -512,6 +537,8 @@ std::vector<int> BaseFilter::processFrame(int& ret)
             break;
     }
     
+    endProcessing();
+    
     if (isPeriodic()){
         enabledJobs.push_back(getId());
     }
@@ -519,6 +546,23 @@ std::vector<int> BaseFilter::processFrame(int& ret)
     return enabledJobs;
 }
 
+void BaseFilter::endProcessing()
+{
+    std::lock_guard<std::mutex> guard(mtx);
+
+    processing = false;
+
+    for (auto it : leavingReaders) {
+        it.second->disconnect(getId());
+    }
+
+    for (auto it : leavingWriters) {
+        it.second->disconnect();
+    }
+
+    leavingReaders.clear();
+    leavingWriters.clear();
+}
 
 std::vector<int> BaseFilter::regularProcessFrame(int& ret)
 {
diff --git a/src/Filter.hh b/src/Filter.hh
index 4b5a591..50f9810 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -259,6 +259,7 @@ private:
     bool deleteWriter(int readerId);
     
     bool pendingJobs();
+    void endProcessing();
     std::vector<int> framesSync();
 
 private:
@@ -269,6 +270,11 @@ private:
     std::chrono::microseconds syncTs;
     
     bool sync;
+    
+    //Links released while the filter processes, they are kept until it ends
+    bool processing;
+    std::map<int, std::shared_ptr<Reader>> leavingReaders;
+    std::map<int, std::shared_ptr<Writer>> leavingWriters;
 };
 
 class OneToOneFilter : public BaseFilter {
-- 
2.43.0


From a4264ed92487e0efcf1582819ffb4ec39da4fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 17/74] fix: do not execute the events of a filter while it
 processes frames

---
 src/Filter.cpp | 26 ++++++++++++++++++++++----
 src/Filter.hh  |  4 ++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 177d171..5886751 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -353,8 +353,8 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
         return false;
     }
 
-    processEvent();
-    R->processEvent();
+    processEventWhenIdle();
+    R->processEventWhenIdle();
 
     std::lock_guard<std::mutex> guard(mtx);
     
@@ -462,12 +462,28 @@ bool BaseFilter::disconnectReader(int readerId)
 }
 
 void BaseFilter::processEvent()
+{
+    std::lock_guard<std::mutex> guard(mtx);
+    executeEvents();
+}
+
+void BaseFilter::processEventWhenIdle()
+{
+    std::unique_lock<std::mutex> guard(mtx);
+
+    //NOTE: events must not change the filter while it processes frames
+    while (processing && newEvent()) {
+        idle.wait(guard);
+    }
+
+    executeEvents();
+}
+
+void BaseFilter::executeEvents()
 {
     std::string action;
     Jzon::Node* params;
 
-    std::lock_guard<std::mutex> guard(mtx);
-
     while(newEvent()) {
 
         Event e = eventQueue.top();
@@ -562,6 +578,8 @@ void BaseFilter::endProcessing()
 
     leavingReaders.clear();
     leavingWriters.clear();
+    
+    idle.notify_all();
 }
 
 std::vector<int> BaseFilter::regularProcessFrame(int& ret)
diff --git a/src/Filter.hh b/src/Filter.hh
index 50f9810..c656ba6 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -28,6 +28,7 @@
 #include <map>
 #include <vector>
 #include <queue>
+#include <condition_variable>
 #include <mutex>
 #include <memory>
 
@@ -260,6 +261,8 @@ private:
     
     bool pendingJobs();
     void endProcessing();
+    void processEventWhenIdle();
+    void executeEvents();
     std::vector<int> framesSync();
 
 private:
@@ -273,6 +276,7 @@ private:
     
     //Links released while the filter processes, they are kept until it ends
     bool processing;
+    std::condition_variable idle;
     std::map<int, std::shared_ptr<Reader>> leavingReaders;
     std::map<int, std::shared_ptr<Writer>> leavingWriters;
 };
-- 
2.43.0


From 2896dfe0c0dc07e2ba975ec73457b31f2f55914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 18/74] fix: do not share a reader twice with the same filter

---
 src/Filter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 5886751..d6f733d 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -290,6 +290,13 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    for (auto it : shared->readers) {
+        if (it.second == readers[orgRId]){
+            utils::errorMsg("The shared filter has this reader already!");
+            return false;
+        }
+    }
+    
     for (auto it : shared->leavingReaders) {
         if (it.second == readers[orgRId]){
             utils::errorMsg("The shared filter is still leaving this reader!");
-- 
2.43.0


From 4e006f204e06ec9ae28b59ece0c12f54799d41f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 19/74] fix: do not look at paths already deleted while
 stopping the pipeline

---
 src/PipelineManager.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index d31b288..22a34e4 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -79,11 +79,9 @@ bool PipelineManager::stop()
     pool->stop();
     utils::infoMsg("All threads stopped");
     
+    //NOTE: the links are released along with the filters
     for (auto it : paths) {
-        if (!deletePath(it.first)) {
-            utils::errorMsg("Failed deleting path " + std::to_string(it.first));
-            return false;
-        }
+        delete it.second;
     }
 
     paths.clear();
-- 
2.43.0


From 086f5f5723de0bd17e84fc638beaa75de0a0af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:53 +0000
Subject: [PATCH 20/74] fix: release exactly the links of a path and delete
 only the filters no other path uses

---
 src/Path.cpp            | 11 ++++++
 src/Path.hh             | 27 +++++++++++++
 src/PipelineManager.cpp | 87 +++++++++++++++++++++++++++--------------
 src/PipelineManager.hh  |  1 +
 4 files changed, 97 insertions(+), 29 deletions(-)

diff --git a/src/Path.cpp b/src/Path.cpp
index 1b13316..5246d85 100644
--- a/src/Path.cpp
+++ b/src/Path.cpp
@@ -60,3 +60,14 @@ bool Path::hasFilter(int fId)
     
     return false;
 }
+
+bool Path::hasWriter(int fId, int wId) const
+{
+    for (auto l : links) {
+        if (l.wFilterId == fId && l.writerId == wId){
+            return true;
+        }
+    }
+
+    return false;
+}
diff --git a/src/Path.hh b/src/Path.hh
index a7f4777..963fea1 100644
--- a/src/Path.hh
+++ b/src/Path.hh
@@ -26,6 +26,15 @@
 
 #include <vector>
 
+/*! Link between two filters of a path
+*/
+struct PathLink {
+    int wFilterId;
+    int writerId;
+    int rFilterId;
+    int readerId;
+};
+
 /*! Path class determines the pipeline configuration, filters interconnections
     and data paths.
 */
@@ -85,6 +94,23 @@ public:
     */
     bool hasFilter(int fId);
 
+    /**
+    * Sets the links between the filters of the path, once they are connected
+    */
+    void setLinks(std::vector<PathLink> pathLinks) {links = pathLinks;};
+
+    /**
+    * Gets the links between the filters of the path
+    * @return links of the path, none if it is not connected
+    */
+    std::vector<PathLink> getLinks() const {return links;};
+
+    /**
+    * Test if the path uses the given writer of the given filter
+    * @return true if any of its links starts there, false otherwise
+    */
+    bool hasWriter(int fId, int wId) const;
+
 protected:
     void addFilterID(int filterID);
 
@@ -94,6 +120,7 @@ private:
     int orgWriterID;
     int dstReaderID;
     std::vector<int> filterIDs;
+    std::vector<PathLink> links;
 };
 
 
diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 22a34e4..3746d43 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -301,37 +301,60 @@ bool PipelineManager::connectPath(int id)
         }
     }
 
-    if (pathFilters.empty()) {
-        if (filters[orgFilterId]->connectManyToMany(filters[dstFilterId], path->getDstReaderID(), path->getOrgWriterID()) ||
-            handleGrouping(orgFilterId, dstFilterId, path->getOrgWriterID(), path->getDstReaderID())) {
-            return true;
-        } else {
-            utils::errorMsg("Connecting head to tail!");
-            return false;
-        }
-    }
+    pathFilters.insert(pathFilters.begin(), orgFilterId);
+    pathFilters.push_back(dstFilterId);
 
-    if (!filters[orgFilterId]->connectManyToOne(filters[pathFilters.front()], path->getOrgWriterID()) &&
-        !handleGrouping(orgFilterId, pathFilters.front(), path->getOrgWriterID(), DEFAULT_ID)) {
-        utils::errorMsg("Connecting path head to first filter!");
-        return false;
-    }
+    std::vector<PathLink> links;
 
     for (unsigned i = 0; i < pathFilters.size() - 1; i++) {
-        if (!filters[pathFilters[i]]->connectOneToOne(filters[pathFilters[i+1]])) {
-            utils::errorMsg("Connecting path filters!");
-            return false;
+        bool first = (i == 0);
+        bool last = (i + 2 == pathFilters.size());
+        PathLink link;
+
+        link.wFilterId = pathFilters[i];
+        link.writerId = first ? path->getOrgWriterID() : (int)filters[link.wFilterId]->generateWriterID();
+        link.rFilterId = pathFilters[i+1];
+        link.readerId = last ? path->getDstReaderID() : (int)filters[link.rFilterId]->generateReaderID();
+
+        if (!filters[link.wFilterId]->connectManyToMany(filters[link.rFilterId], link.readerId, link.writerId)) {
+            link.readerId = last ? path->getDstReaderID() : DEFAULT_ID;
+
+            if (!first || !handleGrouping(link.wFilterId, link.rFilterId, link.writerId, link.readerId)) {
+                utils::errorMsg("Connecting path filters!");
+                disconnectLinks(id, links);
+                return false;
+            }
         }
-    }
 
-    if (!filters[pathFilters.back()]->connectOneToMany(filters[dstFilterId], path->getDstReaderID())) {
-        utils::errorMsg("Connecting path last filter to path tail!");
-        return false;
+        links.push_back(link);
     }
 
+    path->setLinks(links);
+
     return true;
 }
 
+void PipelineManager::disconnectLinks(int pathId, std::vector<PathLink> links)
+{
+    for (auto rit = links.rbegin(); rit != links.rend(); ++rit){
+        bool sharedWriter = false;
+
+        if (!filters[rit->rFilterId]->disconnectReader(rit->readerId)) {
+            utils::errorMsg("Error disconnecting path filters!");
+        }
+
+        for (auto it : paths) {
+            if (it.first != pathId && it.second->hasWriter(rit->wFilterId, rit->writerId)) {
+                sharedWriter = true;
+            }
+        }
+
+        if (!sharedWriter && !filters[rit->wFilterId]->disconnectWriter(rit->writerId)) {
+            utils::errorMsg("Error disconnecting path filters!");
+        }
+    }
+}
+
 bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId)
 {
     ConnectionData cData;
@@ -434,17 +457,23 @@ bool PipelineManager::deletePath(int id)
         }
     }
 
-    if(!filters[dstFilterId]->disconnectReader(path->getDstReaderID())) {
-        utils::errorMsg("Error disconnecting path tail!");
-        return false;
-    }
+    disconnectLinks(id, path->getLinks());
     
     std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
     for (; rit!= pathFilters.rend(); ++rit){
-        filters[*rit]->disconnectReader(DEFAULT_ID);
-        pool->removeTask(*rit);
-        delete filters[*rit];
-        filters.erase(*rit);
+        bool deleteMid = true;
+        
+        for (auto it : paths){
+            if (it.first != id && it.second->hasFilter(*rit)){
+                deleteMid = false;
+            }
+        }
+        
+        if (deleteMid){
+            pool->removeTask(*rit);
+            delete filters[*rit];
+            filters.erase(*rit);
+        }
     }
     
     bool deleteOrig = true;
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 5276943..5aadb4c 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -186,6 +186,7 @@ private:
     PipelineManager(unsigned threads = 0);
     ~PipelineManager();
     bool deletePath(int id);
+    void disconnectLinks(int pathId, std::vector<PathLink> links);
     bool createFilter(int id, FilterType type);
     
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
-- 
2.43.0


From 33ea0cbe88f04d236dc4728fcf6879110a65601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:53 +0000
Subject: [PATCH 21/74] fix: forget a path that could not be connected

---
 src/PipelineManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 3746d43..a03f96a 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -634,6 +634,9 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
     }
 
     if (!connectPath(id)) {
+        //NOTE: the filters remain as they were before
+        delete paths[id];
+        paths.erase(id);
         outputNode.Add("error", "Error connecting path. Better pray Jesus...");
         return;
     }
-- 
2.43.0


From c08081cf00bae7449c0cea9b65f8d786cfd73e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 22/74] fix: let filters send events to others while filters
 are added or removed

---
 src/PipelineManager.cpp | 42 ++++++++++++++++++++++++++++-------------
 src/PipelineManager.hh  |  3 +++
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index a03f96a..cf8d675 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -197,7 +197,10 @@ bool PipelineManager::addFilter(int id, BaseFilter* filter)
         return false;
     }
     
-    filters[id] = filter;
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        filters[id] = filter;
+    }
 
     if (!pool){
         utils::warningMsg("Creating new thread pool!");
@@ -427,13 +430,30 @@ bool PipelineManager::removeFilter(int id)
         }
     }
     
-    pool->removeTask(id);
-    filters.erase(id);
-    delete filter;
+    destroyFilter(id);
 
     return true;
 }
 
+void PipelineManager::destroyFilter(int id)
+{
+    if (filters.count(id) <= 0) {
+        return;
+    }
+
+    BaseFilter* filter = filters[id];
+
+    //NOTE: its execution, awaited here, may be sending an event to another filter
+    pool->removeTask(id);
+
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        filters.erase(id);
+    }
+
+    delete filter;
+}
+
 bool PipelineManager::deletePath(int id)
 {
     Path* path = getPath(id);
@@ -470,9 +490,7 @@ bool PipelineManager::deletePath(int id)
         }
         
         if (deleteMid){
-            pool->removeTask(*rit);
-            delete filters[*rit];
-            filters.erase(*rit);
+            destroyFilter(*rit);
         }
     }
     
@@ -492,15 +510,11 @@ bool PipelineManager::deletePath(int id)
     }
     
     if (deleteDst){
-        pool->removeTask(dstFilterId);
-        delete filters[dstFilterId];
-        filters.erase(dstFilterId);
+        destroyFilter(dstFilterId);
     }
     
     if (deleteOrig){
-        pool->removeTask(orgFilterId);
-        delete filters[orgFilterId];
-        filters.erase(orgFilterId);
+        destroyFilter(orgFilterId);
     }
 
     delete path;
@@ -750,6 +764,8 @@ void PipelineManager::processEvent(Jzon::Object event, Jzon::Object &outputNode)
 
 bool PipelineManager::processFilterEvent(Event event, int filterId)
 {
+    std::lock_guard<std::mutex> guard(filtersMtx);
+
     if (filters.count(filterId) <= 0){
         return false;
     }
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 5aadb4c..4980424 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -30,6 +30,7 @@
 #include "WorkersPool.hh"
 
 #include <map>
+#include <mutex>
 
 /*! PipelineManager class is a singleton class that presents the relation
     between the data flow, control and execution layers. It has all related
@@ -186,6 +187,7 @@ private:
     PipelineManager(unsigned threads = 0);
     ~PipelineManager();
     bool deletePath(int id);
+    void destroyFilter(int id);
     void disconnectLinks(int pathId, std::vector<PathLink> links);
     bool createFilter(int id, FilterType type);
     
@@ -197,6 +199,7 @@ private:
 
     std::map<int, Path*> paths;
     std::map<int, BaseFilter*> filters;
+    std::mutex filtersMtx; // filters may send events to other filters while they are added or removed
     WorkersPool *pool;
 };
 
-- 
2.43.0


From 82a3d58311d304fb6d3cdbdad0b680604f9f9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:54 +0000
Subject: [PATCH 23/74] fix: discard the events whose parameters have the wrong
 type instead of ending the process

---
 src/Filter.cpp | 17 ++++++++++++++---
 src/Filter.hh  |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index d6f733d..12121f1 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -503,7 +503,7 @@ void BaseFilter::executeEvents()
             continue;
         }
 
-        if (!eventMap[action](params)) {
+        if (!executeEvent(action, params)) {
             utils::errorMsg("Error executing filter event");
         }
         
@@ -511,6 +511,17 @@ void BaseFilter::executeEvents()
     }
 }
 
+bool BaseFilter::executeEvent(const std::string &action, Jzon::Node* params)
+{
+    try {
+        return eventMap[action](params);
+    } catch (const std::exception &e) {
+        //NOTE: parameters of the wrong type
+        utils::errorMsg("Invalid parameters in filter event: " + std::string(e.what()));
+        return false;
+    }
+}
+
 bool BaseFilter::newEvent()
 {
     if (eventQueue.empty()) {
@@ -922,7 +933,7 @@ void HeadFilter::pushEvent(Event e)
         return;
     }
 
-    if (!eventMap[action](params)) {
+    if (!executeEvent(action, params)) {
         utils::errorMsg("Error executing filter event");
     }
 }
@@ -956,7 +967,7 @@ void TailFilter::pushEvent(Event e)
         return;
     }
 
-    if (!eventMap[action](params)) {
+    if (!executeEvent(action, params)) {
         utils::errorMsg("Error executing filter event");
     }
 }
diff --git a/src/Filter.hh b/src/Filter.hh
index c656ba6..e402b13 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -224,6 +224,7 @@ protected:
 
     bool newEvent();
     void processEvent();
+    bool executeEvent(const std::string &action, Jzon::Node* params);
     virtual void doGetState(Jzon::Object &filterNode) = 0;
 
     std::map<std::string, std::function<bool(Jzon::Node* params)> > eventMap;
-- 
2.43.0


From 748ab4127d933931cbc027997fccccea0670dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:54 +0000
Subject: [PATCH 24/74] fix: do not parse a request along with the rest of an
 invalid one

---
 src/Jzon.cpp | 2628 +++++++++++++++++++++++++-------------------------
 1 file changed, 1316 insertions(+), 1312 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d6c888a..ca5713e 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1,1313 +1,1317 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#include "Jzon.h"
-
-#include <sstream>
-#include <fstream>
-#include <stack>
-#include <algorithm>
-
-namespace Jzon
-{
-	class FormatInterpreter
-	{
-	public:
-		FormatInterpreter()
-		{
-			SetFormat(NoFormat);
-		}
-		FormatInterpreter(const Format &format)
-		{
-			SetFormat(format);
-		}
-
-		void SetFormat(const Format &format)
-		{
-			this->format = format;
-			indentationChar = (format.useTabs ? '\t' : ' ');
-			spacing = (format.spacing ? " " : "");
-			newline = (format.newline ? "\n" : spacing);
-		}
-
-		std::string GetIndentation(unsigned int level) const
-		{
-			if (!format.newline)
-			{
-				return "";
-			}
-			else
-			{
-				return std::string(format.indentSize * level, indentationChar);
-			}
-		}
-		
-		inline const std::string &GetNewline() const
-		{
-			return newline;
-		}
-		inline const std::string &GetSpacing() const
-		{
-			return spacing;
-		}
-
-	private:
-		Format format;
-		char indentationChar;
-		std::string newline;
-		std::string spacing;
-	};
-
-	void RemoveWhitespace(const std::string &json, std::string &freshJson)
-	{
-		freshJson.clear();
-
-		bool comment = false;
-		int multicomment = 0;
-		bool inString = false;
-
-		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
-		{
-			char c0 = '\0';
-			char c1 = (*it);
-			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
-			if (it+1 != json.end())
-				c2 = (*(it+1));
-
-			if (c0 != '\\' && c1 == '"')
-			{
-				inString = !inString;
-			}
-
-			if (!inString)
-			{
-				if (c1 == '/' && c2 == '*')
-				{
-					++multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '*' && c2 == '/')
-				{
-					--multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '/' && c2 == '/')
-				{
-					comment = true;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '\n')
-				{
-					comment = false;
-				}
-			}
-
-			if (comment || multicomment > 0)
-				continue;
-
-			if (inString)
-			{
-				freshJson += c1;
-			}
-			else
-			{
-				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
-					freshJson += c1;
-			}
-		}
-	}
-
-	Node::Node()
-	{
-	}
-	Node::~Node()
-	{
-	}
-
-	Object &Node::AsObject()
-	{
-		if (IsObject())
-			return static_cast<Object&>(*this);
-		else
-			throw TypeException();
-	}
-	const Object &Node::AsObject() const
-	{
-		if (IsObject())
-			return static_cast<const Object&>(*this);
-		else
-			throw TypeException();
-	}
-	Array &Node::AsArray()
-	{
-		if (IsArray())
-			return static_cast<Array&>(*this);
-		else
-			throw TypeException();
-	}
-	const Array &Node::AsArray() const
-	{
-		if (IsArray())
-			return static_cast<const Array&>(*this);
-		else
-			throw TypeException();
-	}
-	Value &Node::AsValue()
-	{
-		if (IsValue())
-			return static_cast<Value&>(*this);
-		else
-			throw TypeException();
-	}
-	const Value &Node::AsValue() const
-	{
-		if (IsValue())
-			return static_cast<const Value&>(*this);
-		else
-			throw TypeException();
-	}
-
-	Node::Type Node::DetermineType(const std::string &_json)
-	{
-		std::string json;
-		RemoveWhitespace(_json, json);
-
-		Node::Type type = T_VALUE;
-		if (!json.empty())
-		{
-			switch (json.at(0))
-			{
-			case '{' : type = T_OBJECT; break;
-			case '[' : type = T_ARRAY; break;
-			}
-		}
-
-		return type;
-	}
-
-
-	Value::Value()
-	{
-		SetNull();
-	}
-	Value::Value(const Value &rhs)
-	{
-		Set(rhs);
-	}
-	Value::Value(const Node &rhs)
-	{
-		const Value &value = rhs.AsValue();
-		Set(value);
-	}
-	Value::Value(ValueType type, const std::string &value)
-	{
-		Set(type, value);
-	}
-	Value::Value(const std::string &value)
-	{
-		Set(value);
-	}
-	Value::Value(const char *value)
-	{
-		Set(value);
-	}
-	Value::Value(const int value)
-	{
-		Set(value);
-	}
-	Value::Value(const float value)
-	{
-		Set(value);
-	}
-	Value::Value(const double value)
-	{
-		Set(value);
-	}
-	Value::Value(const bool value)
-	{
-		Set(value);
-	}
-	Value::~Value()
-	{
-	}
-
-	Node::Type Value::GetType() const
-	{
-		return T_VALUE;
-	}
-	Value::ValueType Value::GetValueType() const
-	{
-		return type;
-	}
-
-	std::string Value::ToString() const
-	{
-		if (IsNull())
-			return "null";
-		else
-			return valueStr;
-	}
-	int Value::ToInt() const
-	{
-		if (IsNull())
-			return 0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				int val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	float Value::ToFloat() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				float val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	double Value::ToDouble() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				double val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	bool Value::ToBool() const
-	{
-		if (IsNull())
-			return false;
-		else
-			if (IsBool())
-				return (valueStr == "true");
-			else
-				throw ValueException();
-	}
-
-	void Value::SetNull()
-	{
-		valueStr = "";
-		type     = VT_NULL;
-	}
-	void Value::Set(const Value &value)
-	{
-		if (this != &value)
-		{
-			valueStr = value.valueStr;
-			type     = value.type;
-		}
-	}
-	void Value::Set(ValueType type, const std::string &value)
-	{
-		valueStr   = value;
-		this->type = type;
-	}
-	void Value::Set(const std::string &value)
-	{
-		valueStr = UnescapeString(value);
-		type     = VT_STRING;
-	}
-	void Value::Set(const char *value)
-	{
-		valueStr = UnescapeString(std::string(value));
-		type     = VT_STRING;
-	}
-	void Value::Set(const int value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const float value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const double value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const bool value)
-	{
-		if (value)
-			valueStr = "true";
-		else
-			valueStr = "false";
-		type = VT_BOOL;
-	}
-
-	Value &Value::operator=(const Value &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const Node &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs.AsValue());
-		return *this;
-	}
-	Value &Value::operator=(const std::string &rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const char *rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const int rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const float rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const double rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const bool rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-
-	bool Value::operator==(const Value &other) const
-	{
-		return ((type == other.type)&&(valueStr == other.valueStr));
-	}
-	bool Value::operator!=(const Value &other) const
-	{
-		return !(*this == other);
-	}
-
-	Node *Value::GetCopy() const
-	{
-		return new Value(*this);
-	}
-
-	// This is not the most beautiful place for these, but it'll do
-	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
-	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
-	static const unsigned int numEscapeChars = 8;
-	static const char nullUnescaped = '\0';
-	static const char *nullEscaped  = "\0\0";
-	const char *&getEscaped(const char &c)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char &ue = charsUnescaped[i];
-
-			if (c == ue)
-			{
-				const char *&e = charsEscaped[i];
-				return e;
-			}
-		}
-		return nullEscaped;
-	}
-	const char &getUnescaped(const char &c1, const char &c2)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char *&e = charsEscaped[i];
-
-			if (c1 == e[0] && c2 == e[1])
-			{
-				const char &ue = charsUnescaped[i];
-				return ue;
-			}
-		}
-		return nullUnescaped;
-	}
-
-	std::string Value::EscapeString(const std::string &value)
-	{
-		std::string escaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-
-			const char *&a = getEscaped(c);
-			if (a[0] != '\0')
-			{
-				escaped += a[0];
-				escaped += a[1];
-			}
-			else
-			{
-				escaped += c;
-			}
-		}
-
-		return escaped;
-	}
-	std::string Value::UnescapeString(const std::string &value)
-	{
-		std::string unescaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-			char c2 = '\0';
-			if (it+1 != value.end())
-				c2 = *(it+1);
-
-			const char &a = getUnescaped(c, c2);
-			if (a != '\0')
-			{
-				unescaped += a;
-				if (it+1 != value.end())
-					++it;
-			}
-			else
-			{
-				unescaped += c;
-			}
-		}
-
-		return unescaped;
-	}
-
-
-	Object::Object()
-	{
-	}
-	Object::Object(const Object &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::Object(const Node &other)
-	{
-		const Object &object = other.AsObject();
-
-		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::~Object()
-	{
-		Clear();
-	}
-
-	Node::Type Object::GetType() const
-	{
-		return T_OBJECT;
-	}
-
-	void Object::Add(const std::string &name, Node &node)
-	{
-		children.push_back(std::make_pair(name, node.GetCopy()));
-	}
-	void Object::Add(const std::string &name, Value node)
-	{
-		children.push_back(std::make_pair(name, new Value(node)));
-	}
-	void Object::Remove(const std::string &name)
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				delete (*it).second;
-				children.erase(it);
-				break;
-			}
-		}
-	}
-	void Object::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it).second;
-			(*it).second = NULL;
-		}
-		children.clear();
-	}
-
-	Object::iterator Object::begin()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.front());
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::begin() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.front());
-		else
-			return Object::const_iterator(NULL);
-	}
-	Object::iterator Object::end()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.back()+1);
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::end() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.back()+1);
-		else
-			return Object::const_iterator(NULL);
-	}
-
-	bool Object::Has(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return true;
-			}
-		}
-		return false;
-	}
-	size_t Object::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Object::Get(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return *(*it).second;
-			}
-		}
-		
-		throw NotFoundException();
-	}
-
-	Node *Object::GetCopy() const
-	{
-		return new Object(*this);
-	}
-
-
-	Array::Array()
-	{
-	}
-	Array::Array(const Array &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::Array(const Node &other)
-	{
-		const Array &array = other.AsArray();
-
-		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::~Array()
-	{
-		Clear();
-	}
-
-	Node::Type Array::GetType() const
-	{
-		return T_ARRAY;
-	}
-
-	void Array::Add(Node &node)
-	{
-		children.push_back(node.GetCopy());
-	}
-	void Array::Add(Value node)
-	{
-		children.push_back(new Value(node));
-	}
-	void Array::Remove(size_t index)
-	{
-		if (index < children.size())
-		{
-			ChildList::iterator it = children.begin()+index;
-			delete (*it);
-			children.erase(it);
-		}
-	}
-	void Array::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it);
-			(*it) = NULL;
-		}
-		children.clear();
-	}
-
-	Array::iterator Array::begin()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.front());
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::begin() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.front());
-		else
-			return Array::const_iterator(NULL);
-	}
-	Array::iterator Array::end()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.back()+1);
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::end() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.back()+1);
-		else
-			return Array::const_iterator(NULL);
-	}
-
-	size_t Array::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Array::Get(size_t index) const
-	{
-		if (index < children.size())
-		{
-			return *children.at(index);
-		}
-
-		throw NotFoundException();
-	}
-
-	Node *Array::GetCopy() const
-	{
-		return new Array(*this);
-	}
-
-
-	FileWriter::FileWriter(const std::string &filename) : filename(filename)
-	{
-	}
-	FileWriter::~FileWriter()
-	{
-	}
-
-	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
-	{
-		FileWriter writer(filename);
-		writer.Write(root, format);
-	}
-
-	void FileWriter::Write(const Node &root, const Format &format)
-	{
-		Writer writer(root, format);
-		writer.Write();
-
-		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
-		file << writer.GetResult();
-		file.close();
-	}
-
-
-	FileReader::FileReader(const std::string &filename)
-	{
-		if (!loadFile(filename, json))
-		{
-			error = "Failed to load file";
-		}
-	}
-	FileReader::~FileReader()
-	{
-	}
-
-	bool FileReader::ReadFile(const std::string &filename, Node &node)
-	{
-		FileReader reader(filename);
-		return reader.Read(node);
-	}
-
-	bool FileReader::Read(Node &node)
-	{
-		if (!error.empty())
-			return false;
-
-		Parser parser(node, json);
-		if (!parser.Parse())
-		{
-			error = parser.GetError();
-			return false;
-		}
-		else
-		{
-			return true;
-		}
-	}
-
-	Node::Type FileReader::DetermineType()
-	{
-		return Node::DetermineType(json);
-	}
-
-	const std::string &FileReader::GetError() const
-	{
-		return error;
-	}
-
-	bool FileReader::loadFile(const std::string &filename, std::string &json)
-	{
-		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
-
-		if (!file.is_open())
-		{
-			return false;
-		}
-
-		file.seekg(0, std::ios::end);
-		std::ios::pos_type size = file.tellg();
-		file.seekg(0, std::ios::beg);
-
-		json.resize(static_cast<std::string::size_type>(size), '\0');
-		file.read(&json[0], size);
-
-		return true;
-	}
-
-
-	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
-	{
-		SetFormat(format);
-	}
-	Writer::~Writer()
-	{
-		delete fi;
-		fi = NULL;
-	}
-
-	void Writer::SetFormat(const Format &format)
-	{
-		fi->SetFormat(format);
-	}
-	void Writer::Write()
-	{
-		result.clear();
-		writeNode(root, 0);
-	}
-
-	const std::string &Writer::GetResult() const
-	{
-		return result;
-	}
-
-	void Writer::writeNode(const Node &node, unsigned int level)
-	{
-		switch (node.GetType())
-		{
-		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
-		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
-		case Node::T_VALUE  : writeValue(node.AsValue());          break;
-		}
-	}
-	void Writer::writeObject(const Object &node, unsigned int level)
-	{
-		result += "{" + fi->GetNewline();
-
-		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			const Node &value = (*it).second;
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
-	}
-	void Writer::writeArray(const Array &node, unsigned int level)
-	{
-		result += "[" + fi->GetNewline();
-
-		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const Node &value = (*it);
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1);
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
-	}
-	void Writer::writeValue(const Value &node)
-	{
-		if (node.IsString())
-		{
-			result += "\""+Value::EscapeString(node.ToString())+"\"";
-		}
-		else
-		{
-			result += node.ToString();
-		}
-	}
-
-
-	Parser::Parser(Node &root) : root(root)
-	{
-	}
-	Parser::Parser(Node &root, const std::string &json) : root(root)
-	{
-		SetJson(json);
-	}
-	Parser::~Parser()
-	{
-	}
-
-	void Parser::SetJson(const std::string &json)
-	{
-		RemoveWhitespace(json, this->json);
-	}
-	bool Parser::Parse()
-	{
-		cursor = 0;
-
-		tokenize();
-		bool success = assemble();
-
-		return success;
-	}
-
-	const std::string &Parser::GetError() const
-	{
-		return error;
-	}
-
-	void Parser::tokenize()
-	{
-		Token token;
-		std::string valueBuffer;
-		bool saveBuffer;
-
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c = json.at(cursor);
-
-			saveBuffer = true;
-
-			switch (c)
-			{
-			case '{' :
-				{
-					token = T_OBJ_BEGIN;
-					break;
-				}
-			case '}' :
-				{
-					token = T_OBJ_END;
-					break;
-				}
-			case '[' :
-				{
-					token = T_ARRAY_BEGIN;
-					break;
-				}
-			case ']' :
-				{
-					token = T_ARRAY_END;
-					break;
-				}
-			case ',' :
-				{
-					token = T_SEPARATOR_NODE;
-					break;
-				}
-			case ':' :
-				{
-					token = T_SEPARATOR_NAME;
-					break;
-				}
-			case '"' :
-				{
-					token = T_VALUE;
-					readString();
-					break;
-				}
-			default :
-				{
-					valueBuffer += c;
-					saveBuffer = false;
-					break;
-				}
-			}
-
-			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
-			{
-				if (interpretValue(valueBuffer))
-				{
-					tokens.push(T_VALUE);
-				}
-				else
-				{
-					// Store the unknown token, so we can show it to the user
-					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
-					tokens.push(T_UNKNOWN);
-				}
-
-				valueBuffer.clear();
-			}
-
-			// Push the token last so that any
-			// value token will get pushed first
-			// from above.
-			// If saveBuffer is false, it means that
-			// we are in the middle of a value, so we
-			// don't want to push any tokens now.
-			if (saveBuffer)
-			{
-				tokens.push(token);
-			}
-		}
-	}
-	bool Parser::assemble()
-	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
-
-		std::string name = "";
-
-		Token token;
-		while (!tokens.empty())
-		{
-			token = tokens.front();
-			tokens.pop();
-
-			switch (token)
-			{
-			case T_UNKNOWN :
-				{
-					const std::string &unknownToken = data.front().second;
-					error = "Unknown token: "+unknownToken;
-					data.pop();
-					return false;
-				}
-			case T_OBJ_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsObject())
-						{
-							error = "The given root node is not an object";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Object;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_ARRAY_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsArray())
-						{
-							error = "The given root node is not an array";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Array;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_OBJ_END :
-			case T_ARRAY_END :
-				{
-					if (nodeStack.empty())
-					{
-						error = "Found end of object or array without beginning";
-						return false;
-					}
-					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
-					{
-						error = "Mismatched end and beginning of object";
-						return false;
-					}
-					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
-					{
-						error = "Mismatched end and beginning of array";
-						return false;
-					}
-
-					std::string name = nodeStack.top().first;
-					Node *node = nodeStack.top().second;
-					nodeStack.pop();
-
-					if (!nodeStack.empty())
-					{
-						if (nodeStack.top().second->IsObject())
-						{
-							nodeStack.top().second->AsObject().Add(name, *node);
-						}
-						else if (nodeStack.top().second->IsArray())
-						{
-							nodeStack.top().second->AsArray().Add(*node);
-						}
-						else
-						{
-							error = "Can only add elements to objects and arrays";
-							return false;
-						}
-
-						delete node;
-						node = NULL;
-					}
-					break;
-				}
-			case T_VALUE :
-				{
-					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
-					{
-						tokens.pop();
-						if (data.front().first != Value::VT_STRING)
-						{
-							error = "A name has to be a string";
-							return false;
-						}
-						else
-						{
-							name = data.front().second;
-							data.pop();
-						}
-					}
-					else
-					{
-						Node *node = NULL;
-						if (nodeStack.empty())
-						{
-							if (!root.IsValue())
-							{
-								error = "The given root node is not a value";
-								return false;
-							}
-
-							node = &root;
-						}
-						else
-						{
-							node = new Value;
-						}
-
-						if (data.front().first == Value::VT_STRING)
-						{
-							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
-						}
-						else
-						{
-							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
-						}
-						data.pop();
-
-						if (!nodeStack.empty())
-						{
-							if (nodeStack.top().second->IsObject())
-								nodeStack.top().second->AsObject().Add(name, *node);
-							else if (nodeStack.top().second->IsArray())
-								nodeStack.top().second->AsArray().Add(*node);
-
-							delete node;
-							node = NULL;
-							name.clear();
-						}
-						else
-						{
-							nodeStack.push(std::make_pair(name, node));
-							name.clear();
-						}
-					}
-					break;
-				}
-			case T_SEPARATOR_NAME :
-			case T_SEPARATOR_NODE : break;
-			}
-		}
-
-		return true;
-	}
-
-	void Parser::readString()
-	{
-		if (json.at(cursor) != '"')
-			return;
-
-		std::string str;
-
-		++cursor;
-
-		char c1 = '\0';
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c2 = json.at(cursor);
-
-			if (c1 != '\\' && c2 == '"')
-			{
-				break;
-			}
-
-			str += c2;
-
-			c1 = c2;
-		}
-
-		data.push(std::make_pair(Value::VT_STRING, str));
-	}
-
-	bool Parser::interpretValue(const std::string &value)
-	{
-		std::string upperValue(value.size(), '\0');
-
-		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
-
-		if (upperValue == "NULL")
-		{
-			data.push(std::make_pair(Value::VT_NULL, ""));
-		}
-		else if (upperValue == "TRUE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "true"));
-		}
-		else if (upperValue == "FALSE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "false"));
-		}
-		else
-		{
-			bool number = true;
-			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-			{
-				if (!isNumber(*it))
-				{
-					number = false;
-					break;
-				}
-			}
-
-			if (number)
-			{
-				data.push(std::make_pair(Value::VT_NUMBER, value));
-			}
-			else
-			{
-				return false;
-			}
-		}
-
-		return true;
-	}
-
-	bool Parser::isNumber(char c) const
-	{
-		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
-	}
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#include "Jzon.h"
+
+#include <sstream>
+#include <fstream>
+#include <stack>
+#include <algorithm>
+
+namespace Jzon
+{
+	class FormatInterpreter
+	{
+	public:
+		FormatInterpreter()
+		{
+			SetFormat(NoFormat);
+		}
+		FormatInterpreter(const Format &format)
+		{
+			SetFormat(format);
+		}
+
+		void SetFormat(const Format &format)
+		{
+			this->format = format;
+			indentationChar = (format.useTabs ? '\t' : ' ');
+			spacing = (format.spacing ? " " : "");
+			newline = (format.newline ? "\n" : spacing);
+		}
+
+		std::string GetIndentation(unsigned int level) const
+		{
+			if (!format.newline)
+			{
+				return "";
+			}
+			else
+			{
+				return std::string(format.indentSize * level, indentationChar);
+			}
+		}
+		
+		inline const std::string &GetNewline() const
+		{
+			return newline;
+		}
+		inline const std::string &GetSpacing() const
+		{
+			return spacing;
+		}
+
+	private:
+		Format format;
+		char indentationChar;
+		std::string newline;
+		std::string spacing;
+	};
+
+	void RemoveWhitespace(const std::string &json, std::string &freshJson)
+	{
+		freshJson.clear();
+
+		bool comment = false;
+		int multicomment = 0;
+		bool inString = false;
+
+		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
+		{
+			char c0 = '\0';
+			char c1 = (*it);
+			char c2 = '\0';
+			if (it != json.begin())
+				c0 = (*(it-1));
+			if (it+1 != json.end())
+				c2 = (*(it+1));
+
+			if (c0 != '\\' && c1 == '"')
+			{
+				inString = !inString;
+			}
+
+			if (!inString)
+			{
+				if (c1 == '/' && c2 == '*')
+				{
+					++multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '*' && c2 == '/')
+				{
+					--multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '/' && c2 == '/')
+				{
+					comment = true;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '\n')
+				{
+					comment = false;
+				}
+			}
+
+			if (comment || multicomment > 0)
+				continue;
+
+			if (inString)
+			{
+				freshJson += c1;
+			}
+			else
+			{
+				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
+					freshJson += c1;
+			}
+		}
+	}
+
+	Node::Node()
+	{
+	}
+	Node::~Node()
+	{
+	}
+
+	Object &Node::AsObject()
+	{
+		if (IsObject())
+			return static_cast<Object&>(*this);
+		else
+			throw TypeException();
+	}
+	const Object &Node::AsObject() const
+	{
+		if (IsObject())
+			return static_cast<const Object&>(*this);
+		else
+			throw TypeException();
+	}
+	Array &Node::AsArray()
+	{
+		if (IsArray())
+			return static_cast<Array&>(*this);
+		else
+			throw TypeException();
+	}
+	const Array &Node::AsArray() const
+	{
+		if (IsArray())
+			return static_cast<const Array&>(*this);
+		else
+			throw TypeException();
+	}
+	Value &Node::AsValue()
+	{
+		if (IsValue())
+			return static_cast<Value&>(*this);
+		else
+			throw TypeException();
+	}
+	const Value &Node::AsValue() const
+	{
+		if (IsValue())
+			return static_cast<const Value&>(*this);
+		else
+			throw TypeException();
+	}
+
+	Node::Type Node::DetermineType(const std::string &_json)
+	{
+		std::string json;
+		RemoveWhitespace(_json, json);
+
+		Node::Type type = T_VALUE;
+		if (!json.empty())
+		{
+			switch (json.at(0))
+			{
+			case '{' : type = T_OBJECT; break;
+			case '[' : type = T_ARRAY; break;
+			}
+		}
+
+		return type;
+	}
+
+
+	Value::Value()
+	{
+		SetNull();
+	}
+	Value::Value(const Value &rhs)
+	{
+		Set(rhs);
+	}
+	Value::Value(const Node &rhs)
+	{
+		const Value &value = rhs.AsValue();
+		Set(value);
+	}
+	Value::Value(ValueType type, const std::string &value)
+	{
+		Set(type, value);
+	}
+	Value::Value(const std::string &value)
+	{
+		Set(value);
+	}
+	Value::Value(const char *value)
+	{
+		Set(value);
+	}
+	Value::Value(const int value)
+	{
+		Set(value);
+	}
+	Value::Value(const float value)
+	{
+		Set(value);
+	}
+	Value::Value(const double value)
+	{
+		Set(value);
+	}
+	Value::Value(const bool value)
+	{
+		Set(value);
+	}
+	Value::~Value()
+	{
+	}
+
+	Node::Type Value::GetType() const
+	{
+		return T_VALUE;
+	}
+	Value::ValueType Value::GetValueType() const
+	{
+		return type;
+	}
+
+	std::string Value::ToString() const
+	{
+		if (IsNull())
+			return "null";
+		else
+			return valueStr;
+	}
+	int Value::ToInt() const
+	{
+		if (IsNull())
+			return 0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				int val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	float Value::ToFloat() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				float val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	double Value::ToDouble() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				double val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	bool Value::ToBool() const
+	{
+		if (IsNull())
+			return false;
+		else
+			if (IsBool())
+				return (valueStr == "true");
+			else
+				throw ValueException();
+	}
+
+	void Value::SetNull()
+	{
+		valueStr = "";
+		type     = VT_NULL;
+	}
+	void Value::Set(const Value &value)
+	{
+		if (this != &value)
+		{
+			valueStr = value.valueStr;
+			type     = value.type;
+		}
+	}
+	void Value::Set(ValueType type, const std::string &value)
+	{
+		valueStr   = value;
+		this->type = type;
+	}
+	void Value::Set(const std::string &value)
+	{
+		valueStr = UnescapeString(value);
+		type     = VT_STRING;
+	}
+	void Value::Set(const char *value)
+	{
+		valueStr = UnescapeString(std::string(value));
+		type     = VT_STRING;
+	}
+	void Value::Set(const int value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const float value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const double value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const bool value)
+	{
+		if (value)
+			valueStr = "true";
+		else
+			valueStr = "false";
+		type = VT_BOOL;
+	}
+
+	Value &Value::operator=(const Value &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const Node &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs.AsValue());
+		return *this;
+	}
+	Value &Value::operator=(const std::string &rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const char *rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const int rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const float rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const double rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const bool rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+
+	bool Value::operator==(const Value &other) const
+	{
+		return ((type == other.type)&&(valueStr == other.valueStr));
+	}
+	bool Value::operator!=(const Value &other) const
+	{
+		return !(*this == other);
+	}
+
+	Node *Value::GetCopy() const
+	{
+		return new Value(*this);
+	}
+
+	// This is not the most beautiful place for these, but it'll do
+	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
+	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
+	static const unsigned int numEscapeChars = 8;
+	static const char nullUnescaped = '\0';
+	static const char *nullEscaped  = "\0\0";
+	const char *&getEscaped(const char &c)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char &ue = charsUnescaped[i];
+
+			if (c == ue)
+			{
+				const char *&e = charsEscaped[i];
+				return e;
+			}
+		}
+		return nullEscaped;
+	}
+	const char &getUnescaped(const char &c1, const char &c2)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char *&e = charsEscaped[i];
+
+			if (c1 == e[0] && c2 == e[1])
+			{
+				const char &ue = charsUnescaped[i];
+				return ue;
+			}
+		}
+		return nullUnescaped;
+	}
+
+	std::string Value::EscapeString(const std::string &value)
+	{
+		std::string escaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+
+			const char *&a = getEscaped(c);
+			if (a[0] != '\0')
+			{
+				escaped += a[0];
+				escaped += a[1];
+			}
+			else
+			{
+				escaped += c;
+			}
+		}
+
+		return escaped;
+	}
+	std::string Value::UnescapeString(const std::string &value)
+	{
+		std::string unescaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+			char c2 = '\0';
+			if (it+1 != value.end())
+				c2 = *(it+1);
+
+			const char &a = getUnescaped(c, c2);
+			if (a != '\0')
+			{
+				unescaped += a;
+				if (it+1 != value.end())
+					++it;
+			}
+			else
+			{
+				unescaped += c;
+			}
+		}
+
+		return unescaped;
+	}
+
+
+	Object::Object()
+	{
+	}
+	Object::Object(const Object &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::Object(const Node &other)
+	{
+		const Object &object = other.AsObject();
+
+		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::~Object()
+	{
+		Clear();
+	}
+
+	Node::Type Object::GetType() const
+	{
+		return T_OBJECT;
+	}
+
+	void Object::Add(const std::string &name, Node &node)
+	{
+		children.push_back(std::make_pair(name, node.GetCopy()));
+	}
+	void Object::Add(const std::string &name, Value node)
+	{
+		children.push_back(std::make_pair(name, new Value(node)));
+	}
+	void Object::Remove(const std::string &name)
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				delete (*it).second;
+				children.erase(it);
+				break;
+			}
+		}
+	}
+	void Object::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it).second;
+			(*it).second = NULL;
+		}
+		children.clear();
+	}
+
+	Object::iterator Object::begin()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.front());
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::begin() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.front());
+		else
+			return Object::const_iterator(NULL);
+	}
+	Object::iterator Object::end()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.back()+1);
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::end() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.back()+1);
+		else
+			return Object::const_iterator(NULL);
+	}
+
+	bool Object::Has(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return true;
+			}
+		}
+		return false;
+	}
+	size_t Object::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Object::Get(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return *(*it).second;
+			}
+		}
+		
+		throw NotFoundException();
+	}
+
+	Node *Object::GetCopy() const
+	{
+		return new Object(*this);
+	}
+
+
+	Array::Array()
+	{
+	}
+	Array::Array(const Array &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::Array(const Node &other)
+	{
+		const Array &array = other.AsArray();
+
+		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::~Array()
+	{
+		Clear();
+	}
+
+	Node::Type Array::GetType() const
+	{
+		return T_ARRAY;
+	}
+
+	void Array::Add(Node &node)
+	{
+		children.push_back(node.GetCopy());
+	}
+	void Array::Add(Value node)
+	{
+		children.push_back(new Value(node));
+	}
+	void Array::Remove(size_t index)
+	{
+		if (index < children.size())
+		{
+			ChildList::iterator it = children.begin()+index;
+			delete (*it);
+			children.erase(it);
+		}
+	}
+	void Array::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it);
+			(*it) = NULL;
+		}
+		children.clear();
+	}
+
+	Array::iterator Array::begin()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.front());
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::begin() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.front());
+		else
+			return Array::const_iterator(NULL);
+	}
+	Array::iterator Array::end()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.back()+1);
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::end() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.back()+1);
+		else
+			return Array::const_iterator(NULL);
+	}
+
+	size_t Array::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Array::Get(size_t index) const
+	{
+		if (index < children.size())
+		{
+			return *children.at(index);
+		}
+
+		throw NotFoundException();
+	}
+
+	Node *Array::GetCopy() const
+	{
+		return new Array(*this);
+	}
+
+
+	FileWriter::FileWriter(const std::string &filename) : filename(filename)
+	{
+	}
+	FileWriter::~FileWriter()
+	{
+	}
+
+	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
+	{
+		FileWriter writer(filename);
+		writer.Write(root, format);
+	}
+
+	void FileWriter::Write(const Node &root, const Format &format)
+	{
+		Writer writer(root, format);
+		writer.Write();
+
+		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
+		file << writer.GetResult();
+		file.close();
+	}
+
+
+	FileReader::FileReader(const std::string &filename)
+	{
+		if (!loadFile(filename, json))
+		{
+			error = "Failed to load file";
+		}
+	}
+	FileReader::~FileReader()
+	{
+	}
+
+	bool FileReader::ReadFile(const std::string &filename, Node &node)
+	{
+		FileReader reader(filename);
+		return reader.Read(node);
+	}
+
+	bool FileReader::Read(Node &node)
+	{
+		if (!error.empty())
+			return false;
+
+		Parser parser(node, json);
+		if (!parser.Parse())
+		{
+			error = parser.GetError();
+			return false;
+		}
+		else
+		{
+			return true;
+		}
+	}
+
+	Node::Type FileReader::DetermineType()
+	{
+		return Node::DetermineType(json);
+	}
+
+	const std::string &FileReader::GetError() const
+	{
+		return error;
+	}
+
+	bool FileReader::loadFile(const std::string &filename, std::string &json)
+	{
+		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
+
+		if (!file.is_open())
+		{
+			return false;
+		}
+
+		file.seekg(0, std::ios::end);
+		std::ios::pos_type size = file.tellg();
+		file.seekg(0, std::ios::beg);
+
+		json.resize(static_cast<std::string::size_type>(size), '\0');
+		file.read(&json[0], size);
+
+		return true;
+	}
+
+
+	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
+	{
+		SetFormat(format);
+	}
+	Writer::~Writer()
+	{
+		delete fi;
+		fi = NULL;
+	}
+
+	void Writer::SetFormat(const Format &format)
+	{
+		fi->SetFormat(format);
+	}
+	void Writer::Write()
+	{
+		result.clear();
+		writeNode(root, 0);
+	}
+
+	const std::string &Writer::GetResult() const
+	{
+		return result;
+	}
+
+	void Writer::writeNode(const Node &node, unsigned int level)
+	{
+		switch (node.GetType())
+		{
+		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
+		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
+		case Node::T_VALUE  : writeValue(node.AsValue());          break;
+		}
+	}
+	void Writer::writeObject(const Object &node, unsigned int level)
+	{
+		result += "{" + fi->GetNewline();
+
+		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			const Node &value = (*it).second;
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
+	}
+	void Writer::writeArray(const Array &node, unsigned int level)
+	{
+		result += "[" + fi->GetNewline();
+
+		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const Node &value = (*it);
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1);
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
+	}
+	void Writer::writeValue(const Value &node)
+	{
+		if (node.IsString())
+		{
+			result += "\""+Value::EscapeString(node.ToString())+"\"";
+		}
+		else
+		{
+			result += node.ToString();
+		}
+	}
+
+
+	Parser::Parser(Node &root) : root(root)
+	{
+	}
+	Parser::Parser(Node &root, const std::string &json) : root(root)
+	{
+		SetJson(json);
+	}
+	Parser::~Parser()
+	{
+	}
+
+	void Parser::SetJson(const std::string &json)
+	{
+		RemoveWhitespace(json, this->json);
+	}
+	bool Parser::Parse()
+	{
+		cursor = 0;
+
+		// A previous parse may have failed half way
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
+
+		tokenize();
+		bool success = assemble();
+
+		return success;
+	}
+
+	const std::string &Parser::GetError() const
+	{
+		return error;
+	}
+
+	void Parser::tokenize()
+	{
+		Token token;
+		std::string valueBuffer;
+		bool saveBuffer;
+
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			saveBuffer = true;
+
+			switch (c)
+			{
+			case '{' :
+				{
+					token = T_OBJ_BEGIN;
+					break;
+				}
+			case '}' :
+				{
+					token = T_OBJ_END;
+					break;
+				}
+			case '[' :
+				{
+					token = T_ARRAY_BEGIN;
+					break;
+				}
+			case ']' :
+				{
+					token = T_ARRAY_END;
+					break;
+				}
+			case ',' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
+			case ':' :
+				{
+					token = T_SEPARATOR_NAME;
+					break;
+				}
+			case '"' :
+				{
+					token = T_VALUE;
+					readString();
+					break;
+				}
+			default :
+				{
+					valueBuffer += c;
+					saveBuffer = false;
+					break;
+				}
+			}
+
+			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
+			{
+				if (interpretValue(valueBuffer))
+				{
+					tokens.push(T_VALUE);
+				}
+				else
+				{
+					// Store the unknown token, so we can show it to the user
+					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
+					tokens.push(T_UNKNOWN);
+				}
+
+				valueBuffer.clear();
+			}
+
+			// Push the token last so that any
+			// value token will get pushed first
+			// from above.
+			// If saveBuffer is false, it means that
+			// we are in the middle of a value, so we
+			// don't want to push any tokens now.
+			if (saveBuffer)
+			{
+				tokens.push(token);
+			}
+		}
+	}
+	bool Parser::assemble()
+	{
+		std::stack<std::pair<std::string, Node*> > nodeStack;
+
+		std::string name = "";
+
+		Token token;
+		while (!tokens.empty())
+		{
+			token = tokens.front();
+			tokens.pop();
+
+			switch (token)
+			{
+			case T_UNKNOWN :
+				{
+					const std::string &unknownToken = data.front().second;
+					error = "Unknown token: "+unknownToken;
+					data.pop();
+					return false;
+				}
+			case T_OBJ_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsObject())
+						{
+							error = "The given root node is not an object";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Object;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_ARRAY_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsArray())
+						{
+							error = "The given root node is not an array";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Array;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_OBJ_END :
+			case T_ARRAY_END :
+				{
+					if (nodeStack.empty())
+					{
+						error = "Found end of object or array without beginning";
+						return false;
+					}
+					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
+					{
+						error = "Mismatched end and beginning of object";
+						return false;
+					}
+					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
+					{
+						error = "Mismatched end and beginning of array";
+						return false;
+					}
+
+					std::string name = nodeStack.top().first;
+					Node *node = nodeStack.top().second;
+					nodeStack.pop();
+
+					if (!nodeStack.empty())
+					{
+						if (nodeStack.top().second->IsObject())
+						{
+							nodeStack.top().second->AsObject().Add(name, *node);
+						}
+						else if (nodeStack.top().second->IsArray())
+						{
+							nodeStack.top().second->AsArray().Add(*node);
+						}
+						else
+						{
+							error = "Can only add elements to objects and arrays";
+							return false;
+						}
+
+						delete node;
+						node = NULL;
+					}
+					break;
+				}
+			case T_VALUE :
+				{
+					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
+					{
+						tokens.pop();
+						if (data.front().first != Value::VT_STRING)
+						{
+							error = "A name has to be a string";
+							return false;
+						}
+						else
+						{
+							name = data.front().second;
+							data.pop();
+						}
+					}
+					else
+					{
+						Node *node = NULL;
+						if (nodeStack.empty())
+						{
+							if (!root.IsValue())
+							{
+								error = "The given root node is not a value";
+								return false;
+							}
+
+							node = &root;
+						}
+						else
+						{
+							node = new Value;
+						}
+
+						if (data.front().first == Value::VT_STRING)
+						{
+							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
+						}
+						else
+						{
+							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
+						}
+						data.pop();
+
+						if (!nodeStack.empty())
+						{
+							if (nodeStack.top().second->IsObject())
+								nodeStack.top().second->AsObject().Add(name, *node);
+							else if (nodeStack.top().second->IsArray())
+								nodeStack.top().second->AsArray().Add(*node);
+
+							delete node;
+							node = NULL;
+							name.clear();
+						}
+						else
+						{
+							nodeStack.push(std::make_pair(name, node));
+							name.clear();
+						}
+					}
+					break;
+				}
+			case T_SEPARATOR_NAME :
+			case T_SEPARATOR_NODE : break;
+			}
+		}
+
+		return true;
+	}
+
+	void Parser::readString()
+	{
+		if (json.at(cursor) != '"')
+			return;
+
+		std::string str;
+
+		++cursor;
+
+		char c1 = '\0';
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c2 = json.at(cursor);
+
+			if (c1 != '\\' && c2 == '"')
+			{
+				break;
+			}
+
+			str += c2;
+
+			c1 = c2;
+		}
+
+		data.push(std::make_pair(Value::VT_STRING, str));
+	}
+
+	bool Parser::interpretValue(const std::string &value)
+	{
+		std::string upperValue(value.size(), '\0');
+
+		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
+
+		if (upperValue == "NULL")
+		{
+			data.push(std::make_pair(Value::VT_NULL, ""));
+		}
+		else if (upperValue == "TRUE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "true"));
+		}
+		else if (upperValue == "FALSE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "false"));
+		}
+		else
+		{
+			bool number = true;
+			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+			{
+				if (!isNumber(*it))
+				{
+					number = false;
+					break;
+				}
+			}
+
+			if (number)
+			{
+				data.push(std::make_pair(Value::VT_NUMBER, value));
+			}
+			else
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
+	bool Parser::isNumber(char c) const
+	{
+		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 2b92d8d283c269d716420116499323eb52069154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:54 +0000
Subject: [PATCH 25/74] fix: answer the requests that cannot be parsed

---
 src/Controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 0480566..38f20ca 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -145,6 +145,7 @@ bool Controller::readAndParse()
     
     if (read(connectionSocket, inBuffer, MSG_BUFFER_MAX_LENGTH - 1) < 0) {
         utils::errorMsg("Reading from socket");
+        close(connectionSocket);
         return false;
     }
 
@@ -152,6 +153,9 @@ bool Controller::readAndParse()
 
     if (!parser->Parse()) {
         utils::errorMsg("Error parsing JSON");
+        Jzon::Object outputNode;
+        outputNode.Add("error", "Error parsing JSON");
+        sendAndClose(outputNode, connectionSocket);
         return false;
     }
 
-- 
2.43.0


From 397cd109da99e96cb0e2b3897f9669d2b1cc3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:54 +0000
Subject: [PATCH 26/74] fix: answer with an error the commands whose parameters
 have the wrong type

---
 src/Controller.cpp      |  5 +++++
 src/PipelineManager.cpp | 31 +++++++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 38f20ca..a187abd 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -176,6 +176,11 @@ void Controller::processRequest()
     const Jzon::Array &events = inputRootNode->Get("events").AsArray();
 
     for (Jzon::Array::const_iterator it = events.begin(); it != events.end(); ++it) {
+        if (!(*it).IsObject()) {
+            outputNode.Add("error", "Error processing event. Invalid JSON format...");
+            continue;
+        }
+
         pipeMngrInstance->processEvent(*it, outputNode);
     }
 
diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index cf8d675..14538fe 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -594,6 +594,11 @@ void PipelineManager::createFilterEvent(Jzon::Node* params, Jzon::Object &output
         outputNode.Add("error", "Error creating filter. ID must be numeric...");
         return;
     }
+
+    if (!params->Get("type").IsValue()){
+        outputNode.Add("error", "Error creating filter. Invalid JSON format...");
+        return;
+    }
     
     id = params->Get("id").ToInt();
     fType = utils::getFilterTypeFromString(params->Get("type").ToString());
@@ -625,6 +630,13 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
         return;
     }
 
+    if (!params->Get("id").IsNumber() || !params->Get("orgFilterId").IsNumber() ||
+          !params->Get("dstFilterId").IsNumber() || !params->Get("orgWriterId").IsNumber() ||
+            !params->Get("dstReaderId").IsNumber()) {
+        outputNode.Add("error", "Error creating path. IDs must be numeric...");
+        return;
+    }
+
     id = params->Get("id").ToInt();
     orgFilterId = params->Get("orgFilterId").ToInt();
     dstFilterId = params->Get("dstFilterId").ToInt();
@@ -639,6 +651,10 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
     Jzon::Array& jsonFiltersIds = params->Get("midFiltersIds").AsArray();
 
     for (Jzon::Array::iterator it = jsonFiltersIds.begin(); it != jsonFiltersIds.end(); ++it) {
+        if (!(*it).IsNumber()) {
+            outputNode.Add("error", "Invalid midfilters array");
+            return;
+        }
         filtersIds.push_back((*it).ToInt());
     }
     
@@ -721,12 +737,17 @@ void PipelineManager::processEvent(Jzon::Object event, Jzon::Object &outputNode)
     int filterId;
     int delay = -1;
     
-    if (!event.Has("action") || !event.Has("params")) {
+    if (!event.Has("action") || !event.Has("params") || !event.Get("action").IsValue()) {
         outputNode.Add("error", "Error processing filter event. Invalid JSON format...");
         return;
     }
 
-    if ((event.Has("filterId") && event.Get("filterId").IsNumber())) {
+    if (event.Has("filterId") && !event.Get("filterId").IsNumber()) {
+        outputNode.Add("error", "Error processing filter event. Filter ID must be numeric...");
+        return;
+    }
+
+    if (event.Has("filterId")) {
         filterId = event.Get("filterId").ToInt();
         if (event.Has("delay") && event.Get("delay").IsNumber()) {
             delay = event.Get("delay").ToInt();
@@ -742,6 +763,12 @@ void PipelineManager::processEvent(Jzon::Object event, Jzon::Object &outputNode)
 
     } else {
         std::string action = event.Get("action").ToString();
+
+        if (!event.Get("params").IsObject()) {
+            outputNode.Add("error", "Error processing internal event. Invalid JSON format...");
+            return;
+        }
+
         Jzon::Object params = event.Get("params");
 
         if (action == "getState"){
-- 
2.43.0


From 1af1348a1aebb000ad1b503d524baf96599b2323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:54 +0000
Subject: [PATCH 27/74] fix: do not end when a client leaves before its reply

---
 src/Controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index a187abd..e743e44 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -193,7 +193,7 @@ void Controller::sendAndClose(Jzon::Object outputNode, int socket)
     writer.Write();
     std::string result = writer.GetResult();
     const char* res = result.c_str();
-    int ret = write(socket, res, result.size());
+    int ret = send(socket, res, result.size(), MSG_NOSIGNAL);
 
     if (ret < 0) {
         utils::errorMsg("Error writting socket");
-- 
2.43.0


From 58e2391371825db9ba5c6d01c1f097f44da99b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:54 +0000
Subject: [PATCH 28/74] fix: do not return a destroyed controller as the
 current one

---
 src/Controller.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index e743e44..8372fc6 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -54,7 +54,6 @@ Controller* Controller::getInstance()
 
 void Controller::destroyInstance()
 {
-    Controller * ctrlInstance = Controller::getInstance();
     if (ctrlInstance != NULL) {
         delete ctrlInstance;
         ctrlInstance = NULL;
-- 
2.43.0


From 57fddaa209e3526c091b9666a3dbfeed7f66501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 29/74] fix: do not take a truncated request as a complete one

---
 src/Jzon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index ca5713e..70fede3 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1237,6 +1237,12 @@ namespace Jzon
 			}
 		}
 
+		if (!nodeStack.empty() && !nodeStack.top().second->IsValue())
+		{
+			error = "Missing end of object or array";
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From e4fe6e70f0fc4a97bf4fe14e24aebe6c633dacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 30/74] fix: mix the channels of the front layer too

---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From b7714d35fa89f6ef65de0942c7c0ac1dbd228ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 31/74] fix: do not fail with video mixer channels out of the
 layout or too small to be seen

---
 src/modules/videoMixer/VideoMixer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..390bff4 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -165,7 +165,8 @@ bool VideoMixer::configChannel0(int id, float width, float height, float x, floa
         return false;
     }
 
-    if (x < 0 || y < 0 || width <= 0 || height <= 0 || opacity < 0 || opacity > 1.0) {
+    if (!(x >= 0 && x <= 1 && y >= 0 && y <= 1 && width > 0 && width <= 1 && height > 0 && height <= 1 && 
+            opacity >= 0 && opacity <= 1)) {
         utils::errorMsg("[VideoMixer] Error configuring channel. Incoherent values");
         return false;
     }
@@ -216,6 +217,10 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    if (img.empty() || sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
+        return; //NOTE: there is nothing of it to be shown
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From 774932b2748c652644b7e943b6058121b6b10fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 32/74] fix: do not fail with huge crops of the video splitter

---
 src/modules/videoSplitter/VideoSplitter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..a182a9e 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -41,9 +41,6 @@ void CropConfig::config(int width, int height, int x, int y, int degree)
     this->x = x;
     this->y = y;
     this->degree = degree;
-    cv::Mat img(height, width, CV_8UC3);
-    img.copyTo(this->crop);
-
 }
 
 ///////////////////////////////////////////////////
@@ -142,9 +139,9 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
+		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI <= vFrame->getWidth() - widthROI && yROI <= vFrame->getHeight() - heightROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
-			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
+			*cropsConfig[it.first]->getCrop() = cv::Mat(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
 			vFrameDst->setLength(widthROI * heightROI);
     		vFrameDst->setSize(widthROI, heightROI);
     		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(cropsConfig[it.first]->getCropRect(0, 0, widthROI, heightROI));
-- 
2.43.0


From 924b3abf624c39e2ab548d704e86080e9b365a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:30 +0000
Subject: [PATCH 33/74] fix: refuse to connect the output of a shared memory
 filter without input

---
 src/modules/sharedMemory/SharedMemory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..551e4c2 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -154,6 +154,11 @@ FrameQueue* SharedMemory::allocQueue(ConnectionData cData)
         return NULL;
     }
 
+    if (!streamInfo) {
+        utils::errorMsg("SharedMemory::error - the input must be connected before the output");
+        return NULL;
+    }
+
     return VideoFrameQueue::createNew(cData, streamInfo, maxFrames);
 }
 
-- 
2.43.0


From 2e6bb790860eeccc077d311a64314695cc662cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:30 +0000
Subject: [PATCH 34/74] fix: do not share frames that do not fit in the shared
 memory, nor NAL units without data

---
 src/modules/sharedMemory/SharedMemory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 551e4c2..7af9948 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -203,6 +203,11 @@ void SharedMemory::writeSharedMemoryH264()
         return;
     }
 
+    if (dataLength > MAX_SIZE) {
+        utils::errorMsg("SharedMemory::error - the frame does not fit in the shared memory");
+        return;
+    }
+
     *access = CHAR_WRITING;
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
@@ -226,7 +231,7 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     nalData = nal->getDataBuf();
     nalDataLength = nal->getLength();
 
-    if (!nalData || nalDataLength <= 0) {
+    if (!nalData || nalDataLength <= startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
@@ -293,6 +298,10 @@ bool SharedMemory::appendNalToFrame(unsigned char* nalData, unsigned nalDataLeng
 
 int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
 {
+    if (buf_size < 0 || buf_size > MAX_SIZE) {
+        utils::errorMsg("SharedMemory::error - the frame does not fit in the shared memory");
+        return -1;
+    }
 
     *access = CHAR_WRITING;
     memcpy(buffer, buf, sizeof(uint8_t) * buf_size);
-- 
2.43.0


From f0297ff4b51ed63c789359205c25a591a48f5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:30 +0000
Subject: [PATCH 35/74] fix: share coded pictures with their own header instead
 of that of the next picture

---
 src/modules/sharedMemory/SharedMemory.cpp | 13 ++++++++++++-
 src/modules/sharedMemory/SharedMemory.hh  |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 7af9948..4771775 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -54,6 +54,7 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
 SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
     OneToOneFilter(), enabled(true), newFrame(false), codec(codec_)
 {
+    picture = InterleavedVideoFrame::createNew(codec, 1);
 
     if(!(codec == RAW || codec == H264)){
         utils::errorMsg("SharedMemory::error - filter not created - "
@@ -102,6 +103,8 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
 SharedMemory::~SharedMemory()
 {
+    delete picture;
+
     if(shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
         utils::errorMsg("SharedMemory::shmctl error - Could not set IPC_RMID flag to shared memory segment ID");
     }
@@ -129,7 +132,7 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
     switch(vframe->getCodec()){
         case H264:
             if(vframe->getSequenceNumber() != seqNum && newFrame){
-                writeFramePayload(vframe);
+                writeFramePayload(picture);
                 writeSharedMemoryH264();
                 seqNum = vframe->getSequenceNumber();
                 frameData.clear();
@@ -236,6 +239,14 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
         return false;
     }
 
+    if (frameData.empty()) {
+        //NOTE: the picture is shared when the next one starts, with its own header
+        picture->setSequenceNumber(nal->getSequenceNumber());
+        picture->setPresentationTime(nal->getPresentationTime());
+        picture->setSize(nal->getWidth(), nal->getHeight());
+        picture->setPixelFormat(nal->getPixelFormat());
+    }
+
     if (!appendNalToFrame(nalData, nalDataLength, startCodeOffset, newFrame)) {
         utils::errorMsg("Error parsing NAL: invalid NALU type");
         return false;
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index cc6d783..47f2e22 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -137,6 +137,7 @@ private:
     bool        enabled;
     bool        newFrame;
     std::vector<unsigned char>    frameData;
+    InterleavedVideoFrame         *picture; // header of the picture in frameData
     VCodecType const              codec;
     uint16_t                      seqNum;
 };
-- 
2.43.0


From 4cce5d6df8c05701e5af017282160acd2a312e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:35 +0000
Subject: [PATCH 36/74] fix: do not share pictures without data

---
 src/modules/sharedMemory/SharedMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 4771775..7df5c4a 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -201,7 +201,7 @@ void SharedMemory::writeSharedMemoryH264()
     dataLength = frameData.size();
     length = dataLength;
 
-    if (!data) {
+    if (!data || dataLength == 0) {
         utils::errorMsg("SharedMemory::error - no data from appended frame");
         return;
     }
-- 
2.43.0


From 6c09549e5624a9641b7a8bd16e3484e0ee451154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 37/74] fix: do not read past the end of a frame to fill long
 gaps with silence

---
 src/AudioCircularBuffer.cpp | 17 ++++++++++++-----
 src/AudioCircularBuffer.hh  |  1 -
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index c961a74..2690969 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -42,7 +42,7 @@ AudioCircularBuffer* AudioCircularBuffer::createNew(struct ConnectionData cData,
 
 AudioCircularBuffer::AudioCircularBuffer(struct ConnectionData cData, unsigned ch, unsigned sRate, unsigned maxSamples, SampleFmt sFmt)
 : FrameQueue(cData), channels(ch), sampleRate(sRate), bytesPerSample(0), chMaxSamples(maxSamples), channelMaxLength(0), 
-sampleFormat(sFmt), fillNewFrame(true), inputFrame(NULL), outputFrame(NULL), dummyFrame(NULL), 
+sampleFormat(sFmt), fillNewFrame(true), inputFrame(NULL), outputFrame(NULL), 
 synchronized(false), setupSuccess(false), tsDeviationThreshold(0), elements(0)
 {
 
@@ -129,7 +129,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
             return ret;
         }
 
-        if(!pushBack(dummyFrame->getPlanarDataBuf(), paddingSamples)) {
+        if(!pushBack(NULL, paddingSamples)) {
             utils::warningMsg("[AudioCircularBuffer] Cannot push padding");
             return ret;
         }
@@ -205,8 +205,6 @@ bool AudioCircularBuffer::setup()
 
     inputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
     outputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
-    dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
-    dummyFrame->fillWithValue(0);
 
     outputFrame->setSamples(AudioFrame::getDefaultSamples(sampleRate));
     outputFrame->setLength(AudioFrame::getDefaultSamples(sampleRate)*bytesPerSample);
@@ -230,7 +228,16 @@ bool AudioCircularBuffer::pushBack(unsigned char **buffer, int samplesRequested)
 
     rearMod = rear % channelMaxLength;
 
-    if ((rearMod + bytesRequested) < channelMaxLength) {
+    if (!buffer) {
+
+        //NOTE: silence, which can be longer than a frame
+        for (unsigned i=0; i<channels; i++) {
+            for (unsigned j=0; j<bytesRequested; j++) {
+                data[i][(rearMod + j) % channelMaxLength] = 0;
+            }
+        }
+
+    } else if ((rearMod + bytesRequested) < channelMaxLength) {
 
         for (unsigned i=0; i<channels; i++) {
             memcpy(data[i] + rearMod, buffer[i], bytesRequested);
diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index b3194b5..4aa4185 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -114,7 +114,6 @@ private:
 
     PlanarAudioFrame* inputFrame;
     PlanarAudioFrame* outputFrame;
-    PlanarAudioFrame* dummyFrame;
 
     std::chrono::microseconds syncTimestamp;
     bool synchronized;
-- 
2.43.0


From 84683b043c9a7f84205e8fbafa10eb4716d4191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 38/74] fix: push samples under the lock of the audio buffer,
 its reader may be taking others

---
 src/AudioCircularBuffer.cpp | 2 ++
 src/AudioCircularBuffer.hh  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 2690969..bdb3f2e 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -222,6 +222,8 @@ bool AudioCircularBuffer::pushBack(unsigned char **buffer, int samplesRequested)
     unsigned rearMod;
     int firstCopiedBytes;
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     if (bytesRequested > (channelMaxLength - elements)) {
         return false;
     }
diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index 4aa4185..a917d92 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -124,7 +124,7 @@ private:
     int tsDeviationThreshold;
     std::mutex mtx;
 
-    unsigned elements;
+    std::atomic<unsigned> elements;
 };
 
 #endif
-- 
2.43.0


From fbc645b8beeb753fa12a6879db3d99ce05fa1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 39/74] fix: keep the position of the audio buffer beyond 2^32
 samples

---
 src/AudioCircularBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index bdb3f2e..f99836c 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -69,7 +69,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::mutex> guard(mtx);
 
@@ -100,7 +100,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds deviation;
     std::vector<int> ret;
     unsigned paddingSamples;
-    unsigned rearSampleIdx;
+    size_t rearSampleIdx;
 
     inTs = inputFrame->getPresentationTime();
 
-- 
2.43.0


From 931c9e3ffa58cdab124fe5dda713bec36789fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 40/74] fix: ignore the frames of before the start of the audio
 mix, do not restart it for them

---
 src/modules/audioMixer/AudioMixer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..a6811ed 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -52,7 +52,7 @@ syncTs(std::chrono::microseconds(-1))
 AudioMixer::~AudioMixer() 
 {
     for (int i = 0; i < MAX_CHANNELS; i++) {
-        delete mixBuffers[i];
+        delete[] mixBuffers[i];
     }
 }
 
@@ -127,7 +127,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
     absolutePosition = (frame->getPresentationTime() - syncTs).count()*sampleRate/std::micro::den;
 
-    if (absolutePosition < front) {
+    if (frame->getPresentationTime() < syncTs || absolutePosition < front) {
         utils::errorMsg("[AudioMixer] Samples from the past ignored");
         return false;
     }
-- 
2.43.0


From a744b5c50da54183a618a3656be4e5f9adf899e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 41/74] fix: do not mix the samples of before a restart of the
 audio mixer

---
 src/modules/audioMixer/AudioMixer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index a6811ed..57932bf 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -26,6 +26,7 @@
 #include "../../AudioCircularBuffer.hh"
 #include "../../Utils.hh"
 #include <iostream>
+#include <algorithm>
 #include <utility>
 #include <cmath>
 #include <string.h>
@@ -138,6 +139,11 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         rear = 0;
         syncTs = frame->getPresentationTime();
         absolutePosition = front;
+
+        //NOTE: the samples of the previous mix must not be heard in the new one
+        for (int i = 0; i < channels; i++) {
+            std::fill(mixBuffers[i], mixBuffers[i] + mixBufferMaxSamples, 0);
+        }
     }
 
     for (int i = 0; i < channels; i++) {
-- 
2.43.0


From 354aef0472f307721358899ab89d7ba624216f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 42/74] fix: keep the position of the audio mix beyond 2^32
 samples

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 src/modules/audioMixer/AudioMixer.hh  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 57932bf..cd4ec45 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -107,7 +107,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     SampleFmt fmt;
     unsigned nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    uint64_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..09cc6c9 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -145,8 +145,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    uint64_t front;
+    uint64_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From 922c708dc9238b738c16bb8dfa0514313889aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 43/74] fix: mix the samples of frames of 16 bits at their own
 size

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index cd4ec45..daa05f2 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -111,8 +111,8 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
-    bytesPerSample = utils::getBytesPerSampleFromFormat(sampleFormat);
     fmt = frame->getSampleFmt();
+    bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
     nOfSamples = frame->getSamples();
 
     freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
-- 
2.43.0


From 78dd4e9924c6cd3e45780e60daf84a6fa094348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:16 +0000
Subject: [PATCH 44/74] fix: delete every DASH segment that leaves the manifest

---
 src/modules/dasher/Dasher.cpp     | 20 ++++++++++++--------
 src/modules/dasher/MpdManager.cpp |  9 ++++++---
 src/modules/dasher/MpdManager.hh  |  8 +++++---
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..66c7319 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -246,7 +246,7 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -284,12 +284,14 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur, &rmTimestamps);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
@@ -311,7 +313,7 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -337,12 +339,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
+    mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur, &rmTimestamps);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..7108cb8 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -113,7 +113,7 @@ void MpdManager::writeToDisk(const char* fileName)
     doc.SaveFile(fileName);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration, std::vector<uint64_t>* removed)
 {
     AdaptationSet* adSet;
     uint64_t removedTimestamp;
@@ -124,7 +124,7 @@ uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, u
         return 0;
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
+    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg, removed);
     return removedTimestamp;
 }
 
@@ -238,12 +238,15 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg, std::vector<uint64_t>* removed)
 {
     uint64_t removedTimestamp= 0;
 
     while (timestamps.size() >= maxSeg) {
         removedTimestamp = timestamps.front().first;
+        if (removed) {
+            removed->push_back(removedTimestamp);
+        }
         timestamps.pop_front();
     }
 
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..1e9cc33 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -22,6 +22,7 @@
 #ifndef _MPD_MANAGER_HH_
 #define _MPD_MANAGER_HH_
 
+#include <vector>
 #include <map>
 #include <deque>
 #include <tinyxml2.h>
@@ -105,9 +106,10 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @param removed If provided, the timestamps removed from the list are appended to it.
+    * @return the last removed timestamp, 0 if none
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration, std::vector<uint64_t>* removed = NULL);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -213,7 +215,7 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg, std::vector<uint64_t>* removed = NULL);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From 8f52236773062abc18f650375ae092dceb9f4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:16 +0000
Subject: [PATCH 45/74] fix: end a DASH video segment whose last picture lasts
 longer than the segment

---
 src/modules/dasher/i2libdash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..6100856 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -329,7 +329,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
 
     lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
 
-    if ((nextFrameIsIntra == TRUE) && ((((*context)->duration - lastSampleDuration)) <= ((*context)->ctxvideo->current_video_duration + lastSampleDuration))) {
+    if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= (uint64_t)(*context)->ctxvideo->current_video_duration + 2*(uint64_t)lastSampleDuration)) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
         (*context)->ctxvideo->current_video_duration += lastSampleDuration;
 
-- 
2.43.0


From aa6b6f9ba023d52f2c1dc7c6733244dc26d0be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 46/74] fix: time DASH video samples by their decode times, or
 presentation times if they have none

---
 src/modules/dasher/DashVideoSegmenter.cpp | 8 ++++----
 src/modules/dasher/Dasher.cpp             | 4 +++-
 src/modules/dasher/i2libdash.c            | 4 ++--
 src/modules/dasher/i2libdash.h            | 2 +-
 src/modules/dasher/i2libisoff.c           | 2 +-
 5 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..61f91ef 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -118,11 +118,11 @@ bool DashVideoSegmenter::generateInitSegment(DashSegment* segment)
 unsigned DashVideoSegmenter::customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
                                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force)
 {
-    uint64_t timeBasePts;
+    uint64_t timeBaseDts;
 
-    timeBasePts = microsToTimeBase(nextFrameTs);
+    timeBaseDts = microsToTimeBase(nextFrameTs);
 
-    return generate_video_segment(isPreviousFrameIntra(), timeBasePts, segBuffer, &dashContext, &segTimestamp, &segDuration);
+    return generate_video_segment(isPreviousFrameIntra(), timeBaseDts, segBuffer, &dashContext, &segTimestamp, &segDuration);
 }
 
 bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
@@ -139,7 +139,7 @@ bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
     }
     
     timeBasePts = microsToTimeBase(vFrame->getPresentationTime());
-    timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
+    timeBaseDts = microsToTimeBase(vFrame->getFrameTime());
 
     //TODO: test it with bFrames
     addSampleReturn = add_video_sample(vFrame->getDataBuf(), vFrame->getLength(), timeBasePts, 
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 66c7319..4b08491 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -651,6 +651,7 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
     uint64_t segTimestamp;
     uint32_t segDuration;
     std::chrono::microseconds frameTs = std::chrono::microseconds(0);
+    std::chrono::microseconds frameDts = std::chrono::microseconds(0);
 
     if (!frame && !force) {
         return false;
@@ -658,9 +659,10 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
 
     if (frame) {
         frameTs = frame->getPresentationTime();
+        frameDts = frame->getFrameTime();
     }
 
-    segmentSize = customGenerateSegment(segment->getDataBuffer(), frameTs, segTimestamp, segDuration, force);
+    segmentSize = customGenerateSegment(segment->getDataBuffer(), frameDts, segTimestamp, segDuration, force);
 
     if (segmentSize <= I2ERROR_MAX) {
         segment->setLastFrameTimestamp(frameTs.count());
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6100856..ca7b4e2 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -296,7 +296,7 @@ uint32_t init_audio_handler(byte *input_data, uint32_t size_input, byte *output_
     return initAudio;
 }
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint64_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration)
 {
     uint32_t segDataLength;
@@ -327,7 +327,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
         return segDataLength;
     }
 
-    lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
+    lastSampleDuration = nextFrameDts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].decode_timestamp;
 
     if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= (uint64_t)(*context)->ctxvideo->current_video_duration + 2*(uint64_t)lastSampleDuration)) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 419e64f..c6155b5 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -59,7 +59,7 @@ void set_sample_rate(uint32_t sample_rate, i2ctx **context);
 
 uint32_t get_sample_rate(i2ctx *context);
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint64_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
 
 uint32_t generate_audio_segment(byte *output_data, i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 34b9410..8b7a75b 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -1858,7 +1858,7 @@ uint32_t write_tfdt(byte *data, uint32_t media_type, i2ctx *context) {
     earliest_presentation_time = 0;
 
     if ((media_type == VIDEO_TYPE_AVC) || (media_type == VIDEO_TYPE_HEVC)) {
-        earliest_presentation_time = ctxVideo->earliest_presentation_time;
+        earliest_presentation_time = ctxVideo->ctxsample->mdat[0].decode_timestamp;
     }
     else if (media_type == AUDIO_TYPE) {
         earliest_presentation_time = ctxAudio->earliest_presentation_time;
-- 
2.43.0


From 11be0fdef39dee056a5fcd9436ea0c4165bfa2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 47/74] fix: keep the DASH session start when the first frame
 is at time 0

---
 src/modules/dasher/Dasher.cpp | 5 +++--
 src/modules/dasher/Dasher.hh  | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 4b08491..f5b3ee5 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -36,7 +36,7 @@
 #include <math.h>
 
 Dasher::Dasher(unsigned readersNum) :
-TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0))
+TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0)), offsetSet(false)
 {
     fType = DASHER;
     initializeEventMap();
@@ -101,7 +101,8 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
             continue;
         }
         
-        if (timestampOffset.count() == 0){
+        if (!offsetSet){
+            offsetSet = true;
             timestampOffset = orgFrames[id]->getFrameTime();
             for(auto seg : segmenters){
                 seg.second->setOffset(timestampOffset);
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3bd7f0f..dc0965b 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -136,6 +136,7 @@ private:
     bool videoStarted;
     
     std::chrono::microseconds timestampOffset;
+    bool offsetSet;
 };
 
 /*! Abstract class implemented by DashVideoSegmenter and DashAudioSegmenter */
-- 
2.43.0


From 2232778e344343dbbfe87cc89cb5fc0f4dfac2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 48/74] fix: discard DASH frames from before the start of the
 session

---
 src/modules/dasher/Dasher.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f5b3ee5..041a61c 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -120,6 +120,11 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
             continue;
         }
 
+        if (frame->getFrameTime() < timestampOffset) {
+            utils::warningMsg("[Dasher::doProcessFrame] Discarding frame from before the start of the session");
+            continue;
+        }
+
         if (generateSegment(id, frame, segmenter)) {
             utils::debugMsg("[Dasher::doProcessFrame] New segment generated");
         }
-- 
2.43.0


From 81859db42d33b9a3d07a0e19634c5d585bd25207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 49/74] fix: keep all the bits of the start time of DASH audio
 segments

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..439ae89 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
-- 
2.43.0


From 35ba274288a89603699d836d15bb6a8c6a143e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 50/74] fix: flag DASH pictures as intra by their slices only

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp  | 3 ---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 4 ----
 2 files changed, 7 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 872910c..ff968a7 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -87,14 +87,11 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
     switch (nalType) {
         case SPS_AVC:
             saveSPS(nalData, nalDataLength);
-            currentIntra = false;
             break;
         case PPS_AVC:
             savePPS(nalData, nalDataLength);
-            currentIntra = false;
             break;
         case SEI:
-            currentIntra = false;
             break;
         case IDR:
             currentIntra = true;
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..1c97d1e 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -89,19 +89,15 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
     switch (nalType) {
         case VPS:
             saveVPS(nalData, nalDataLength);
-            currentIntra = false;
             break;
         case SPS_HEVC:
             saveSPS(nalData, nalDataLength);
-            currentIntra = false;
             break;
         case PPS_HEVC:
             savePPS(nalData, nalDataLength);
-            currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
         case SUFFIX_SEI_NUT:
-            currentIntra = false;
             break;
         case AUD_HEVC:
             break;
-- 
2.43.0


From 4b1913ac7e6468da231589811f98ecc9d08c4f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 51/74] fix: do not look for a start code beyond the end of a
 NAL unit

---
 src/modules/dasher/DashVideoSegmenter.cpp     | 10 +++++++++-
 src/modules/dasher/DashVideoSegmenter.hh      |  2 +-
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  2 +-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  2 +-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 61f91ef..442f744 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -178,13 +178,21 @@ bool DashVideoSegmenter::appendNalToFrame(VideoFrame* frame, unsigned char* nalD
 }
 
 
-int DashVideoSegmenter::detectStartCode(unsigned char const* ptr)
+int DashVideoSegmenter::detectStartCode(unsigned char const* ptr, unsigned length)
 {
+    if (length < SHORT_START_CODE_LENGTH) {
+        return 0;
+    }
+
     u_int32_t bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
     if (bytes == H264or5_NALU_START_CODE) {
         return SHORT_START_CODE_LENGTH;
     }
 
+    if (length < LONG_START_CODE_LENGTH) {
+        return 0;
+    }
+
     bytes = (ptr[0]<<24)|(ptr[1]<<16)|(ptr[2]<<8)|ptr[3];
     if (bytes == H264or5_NALU_START_CODE) {
         return LONG_START_CODE_LENGTH;
diff --git a/src/modules/dasher/DashVideoSegmenter.hh b/src/modules/dasher/DashVideoSegmenter.hh
index fa7726a..40f17cd 100644
--- a/src/modules/dasher/DashVideoSegmenter.hh
+++ b/src/modules/dasher/DashVideoSegmenter.hh
@@ -102,7 +102,7 @@ protected:
     bool appendNalToFrame(VideoFrame* frame, unsigned char* nalData, unsigned nalDataLength, 
                            unsigned nalWidth, unsigned nalHeight, std::chrono::microseconds ts,
                            std::chrono::microseconds dts);
-    int detectStartCode(unsigned char const* ptr);
+    int detectStartCode(unsigned char const* ptr, unsigned length);
     bool setup(unsigned int width, unsigned int height);
     unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force);
diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index ff968a7..420abdd 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -71,7 +71,7 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
     unsigned char nalType;
     bool newFrame = false;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    startCodeOffset = detectStartCode(nal->getDataBuf(), nal->getLength());
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 1c97d1e..aa23415 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -73,7 +73,7 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
     unsigned char nalType;
     bool newFrame = false;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    startCodeOffset = detectStartCode(nal->getDataBuf(), nal->getLength());
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
-- 
2.43.0


From 81d925f1d9ad478a84496c0d78f00c167828e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 52/74] fix: read all the bits of the ADTS channel
 configuration

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 439ae89..74c1354 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From 4a8bd3b1540ccb3426820417b55624fc93d60226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 53/74] fix: refuse DASH samples that do not fit in the segment
 buffers

---
 src/modules/dasher/i2context.h |  4 +++-
 src/modules/dasher/i2libdash.c | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..75e9dcb 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -31,9 +31,11 @@ typedef unsigned char byte;
 #define VIDEO_TYPE_HEVC 2            //AVC1_VIDEO_TYPE  &   HEV1_VIDEO_TYPE
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
-#define MAX_DAT 10*1024*1024 
+#define MAX_DAT 10*1024*1024
+#define MAX_SEGMENT_HEADERS 1024 
 //TODO: error negative values
 #define I2ERROR_MAX 10
+#define I2ERROR_SIZE_EXCEEDED 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index ca7b4e2..2555425 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -435,6 +435,12 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    // Segment data, with its headers, must fit in the segment buffers
+    if (ctxSample->mdat_sample_length >= MAX_MDAT_SAMPLE ||
+        (uint64_t)(*context)->ctxvideo->segment_data_size + input_data_length + 16*(ctxSample->mdat_sample_length + 1) + MAX_SEGMENT_HEADERS > MAX_DAT) {
+        return I2ERROR_SIZE_EXCEEDED;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -482,6 +488,12 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
     
+    // Segment data, with its headers, must fit in the segment buffers
+    if (ctxSample->mdat_sample_length >= MAX_MDAT_SAMPLE ||
+        (uint64_t)(*context)->ctxaudio->segment_data_size + input_data_length + 16*(ctxSample->mdat_sample_length + 1) + MAX_SEGMENT_HEADERS > MAX_DAT) {
+        return I2ERROR_SIZE_EXCEEDED;
+    }
+
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
     (*context)->ctxaudio->segment_data_size += input_data_length;
-- 
2.43.0


From 24bb17f69da3adc53ad061b9dc96b65679108417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:32 +0000
Subject: [PATCH 54/74] fix: do not hold finished DASH segments back for
 representations that have not begun theirs

A representation connected while others were running made their finished
segments wait for its first one, and each was overwritten by the next.
---
 src/modules/dasher/Dasher.cpp | 80 ++++++++++++++++++++++++-----------
 src/modules/dasher/Dasher.hh  |  8 ++++
 2 files changed, 63 insertions(+), 25 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 041a61c..063398d 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -255,25 +255,21 @@ bool Dasher::writeVideoSegments()
     std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
-    if (vSegments.empty()) {
-        return false;
-    }
+    std::map<int,DashSegment*> finished = getFinishedSegments(vSegments);
 
-    for (auto seg : vSegments) {
-        if (!seg.second->isComplete()) {
-            return false;
-        }
+    if (finished.empty()) {
+        return false;
     }
 
     if (!forceAudioSegmentsGeneration()) {
         utils::warningMsg("Forcing the generation of audio segments. This may cause errors!");
     }
 
-    ts = vSegments.begin()->second->getTimestamp();
-    uint64_t lastTs = vSegments.begin()->second->getLastFrameTimestamp();
-    dur = vSegments.begin()->second->getDuration();
+    ts = finished.begin()->second->getTimestamp();
+    uint64_t lastTs = finished.begin()->second->getLastFrameTimestamp();
+    dur = finished.begin()->second->getDuration();
 
-    for (auto seg : vSegments) {
+    for (auto seg : finished) {
         if (seg.second->getLastFrameTimestamp() != lastTs) {
             utils::warningMsg("Segments of the same adaptation set have different timestamps");
             needEncoderConfig = true;
@@ -285,7 +281,7 @@ bool Dasher::writeVideoSegments()
         sendSetReferenceEvent(lastTs + std::chrono::microseconds(segDur).count());
     }
     
-    if (!writeSegmentsToDisk(vSegments, ts, V_EXT)) {
+    if (!writeSegmentsToDisk(finished, ts, V_EXT)) {
         utils::errorMsg("Error writing DASH video segment to disk");
         return false;
     }
@@ -321,26 +317,22 @@ bool Dasher::writeAudioSegments()
     unsigned int dur;
     std::vector<uint64_t> rmTimestamps;
 
-    if (aSegments.empty()) {
-        return false;
-    }
+    std::map<int,DashSegment*> finished = getFinishedSegments(aSegments);
 
-    for (auto seg : aSegments) {
-        if (!seg.second->isComplete()) {
-            return false;
-        }
+    if (finished.empty()) {
+        return false;
     }
 
-    ts = aSegments.begin()->second->getTimestamp();
-    dur = aSegments.begin()->second->getDuration();
+    ts = finished.begin()->second->getTimestamp();
+    dur = finished.begin()->second->getDuration();
 
-    for (auto seg : aSegments) {
+    for (auto seg : finished) {
         if (seg.second->getTimestamp() != ts || seg.second->getDuration() != dur) {
             utils::warningMsg("Segments of the same adaptation set have different timestamps");
         }
     }
 
-    if (!writeSegmentsToDisk(aSegments, ts, A_EXT)) {
+    if (!writeSegmentsToDisk(finished, ts, A_EXT)) {
         utils::errorMsg("Error writing DASH video segment to disk");
         return false;
     }
@@ -358,10 +350,34 @@ bool Dasher::writeAudioSegments()
     return true;
 }
 
+std::map<int,DashSegment*> Dasher::getFinishedSegments(std::map<int,DashSegment*> segments)
+{
+    std::map<int,DashSegment*> finished;
+    uint64_t end = 0;
+
+    for (auto seg : segments) {
+        if (seg.second->isComplete()) {
+            finished[seg.first] = seg.second;
+            end = std::max(end, seg.second->getTimestamp() + seg.second->getDuration());
+        }
+    }
+
+    // Wait only for those that are making a segment of the same period
+    for (auto seg : segments) {
+        if (!seg.second->isComplete() && segmenters[seg.first]->startedBefore(end)) {
+            finished.clear();
+            break;
+        }
+    }
+
+    return finished;
+}
+
 bool Dasher::forceAudioSegmentsGeneration()
 {
     DashSegmenter* segmenter;
     DashAudioSegmenter* aSeg;
+    bool success = true;
 
     for (auto seg : aSegments) {
         segmenter = getSegmenter(seg.first);
@@ -378,7 +394,8 @@ bool Dasher::forceAudioSegmentsGeneration()
 
         if (!aSeg->generateSegment(seg.second, NULL, true)) {
             utils::errorMsg("Error forcing audio segment generation");
-            return false;
+            success = false;
+            continue;
         }
 
         mpdMngr->updateAudioAdaptationSet(A_ADAPT_SET_ID, segmenters[seg.first]->getTimeBase(), aSegTempl, aInitSegTempl);
@@ -386,7 +403,7 @@ bool Dasher::forceAudioSegmentsGeneration()
                                             aSeg->getSampleRate(), aSeg->getBitrate(), aSeg->getChannels());
     }
 
-    return true;
+    return success;
 }
 
 bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt)
@@ -689,6 +706,19 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
     return true;
 }
 
+bool DashSegmenter::startedBefore(uint64_t ts)
+{
+    if (!dashContext) {
+        return false;
+    }
+
+    if (dashContext->ctxvideo) {
+        return dashContext->ctxvideo->ctxsample->mdat_sample_length > 0 && dashContext->ctxvideo->earliest_presentation_time < ts;
+    }
+
+    return dashContext->ctxaudio && dashContext->ctxaudio->ctxsample->mdat_sample_length > 0 && dashContext->ctxaudio->earliest_presentation_time < ts;
+}
+
 uint64_t DashSegmenter::microsToTimeBase(std::chrono::microseconds microValue)
 {
     return (microValue-tsOffset).count()*timeBase/std::micro::den;
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index dc0965b..fbb13eb 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -103,6 +103,7 @@ private:
     bool appendFrameToSegment(unsigned int id, Frame* frame, DashSegmenter* segmenter);
     DashSegmenter* getSegmenter(unsigned int id);
     bool forceAudioSegmentsGeneration();
+    std::map<int,DashSegment*> getFinishedSegments(std::map<int,DashSegment*> segments);
     bool writeVideoSegments();
     bool writeAudioSegments();
 
@@ -170,6 +171,13 @@ public:
 
     virtual bool appendFrameToDashSegment(Frame* frame) = 0;
     bool generateSegment(DashSegment* segment, Frame* frame, bool force = false);
+
+    /**
+    * @param ts timestamp in timeBase units
+    * @return true if the segment being made starts before ts
+    */
+    bool startedBefore(uint64_t ts);
+
     /**
     * Returns average frame duration
     * @return duration in time base
-- 
2.43.0


From e71a856a10a10774f33ecb677a054c8605a8f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 55/74] fix: encode pictures of 4:2:2 and 4:4:4 with their own
 chroma format

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 1 +
 src/modules/videoEncoder/VideoEncoderX265.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index cae7b1b..5bb3539 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -159,6 +159,7 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     picIn.img.i_csp = colorspace;
     x264_param_default_preset(&xparams, preset.c_str(), NULL);
     x264_param_apply_profile(&xparams, "high");
+    xparams.i_csp = colorspace;
 
     x264_param_parse(&xparams, "keyint", std::to_string(gop).c_str());
     x264_param_parse(&xparams, "fps", std::to_string(fps).c_str());
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 6d88508..5aa7fd7 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -166,6 +166,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x265_param_default_preset(xparams, preset.c_str(), NULL);
     /*TODO check with NULL profile*/
     x265_param_apply_profile(xparams, "main");
+    xparams->internalCsp = colorspace;
 
     x265_param_parse(xparams, "keyint", std::to_string(gop).c_str());
     x265_param_parse(xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From 2e63d6fa580882e606119bdfd4c8163b9626bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 56/74] fix: give decode times to the coded pictures that
 precede the first input

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 67985a4..b0cab51 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -100,7 +100,13 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
     
     dst->setConsumed(true);
     dst->setPresentationTime(qFTP[outPts].pTime);
-    dst->setDecodeTime(qFTP[dts].pTime);
+    if (qFTP.count(dts) > 0) {
+        dst->setDecodeTime(qFTP[dts].pTime);
+    } else {
+        // Before the first picture, due to reordering
+        dst->setDecodeTime(qFTP.begin()->second.pTime - 
+            std::chrono::microseconds((qFTP.begin()->first - dts)*std::micro::den/fps));
+    }
     dst->setOriginTime(qFTP[outPts].oTime);
     dst->setSequenceNumber(qFTP[outPts].seqNum);
     
-- 
2.43.0


From fa1e599714ae6e1097ce36c98613475c14a74644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 57/74] fix: force a single intra picture when several groups
 are due at once

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index b0cab51..554377c 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -82,7 +82,7 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
             
         if (diff.count() <= 0){
             forceIntra = true;
-            refTime += std::chrono::microseconds(gopTime);
+            refTime += std::chrono::microseconds(gopTime)*(1 - diff.count()/(int64_t)gopTime);
         }
     }
     
-- 
2.43.0


From 30cdca6cbd15e125dd28c21dc2498b385245e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 58/74] fix: refuse negative encoder parameters

---
 .../videoEncoder/VideoEncoderX264or5.cpp      | 20 +++++++++----------
 .../videoEncoder/VideoEncoderX264or5.hh       |  6 +++---
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 554377c..6d2743d 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -133,9 +133,9 @@ bool VideoEncoderX264or5::fill_x264or5_picture(VideoFrame* videoFrame)
     return true;
 }
 
-bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                                     unsigned lookahead_, int bFrames_, unsigned threads_, 
-                                     bool annexB_, std::string preset_, unsigned gopTime_)
+bool VideoEncoderX264or5::configure0(int bitrate_, int fps_, int gop_, 
+                                     int lookahead_, int bFrames_, int threads_, 
+                                     bool annexB_, std::string preset_, int gopTime_)
 {
     if (bitrate_ <= 0 || gop_ <= 0 || lookahead_ < 0 || threads_ <= 0 || preset_.empty()) {
         utils::errorMsg("Error configuring VideoEncoderX264or5: invalid configuration values");
@@ -175,13 +175,13 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
 
 bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
 {
-    unsigned tmpBitrate;
-    unsigned tmpFps;
-    unsigned tmpGop;
-    unsigned tmpGopTime;
-    unsigned tmpLookahead;
-    unsigned tmpThreads;
-    unsigned tmpBFrames;
+    int tmpBitrate;
+    int tmpFps;
+    int tmpGop;
+    int tmpGopTime;
+    int tmpLookahead;
+    int tmpThreads;
+    int tmpBFrames;
     bool tmpAnnexB;
     std::string tmpPreset;
 
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.hh b/src/modules/videoEncoder/VideoEncoderX264or5.hh
index e6bd6ba..e7058ac 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.hh
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.hh
@@ -96,9 +96,9 @@ protected:
     void setIntra(){forceIntra = true;};
     bool fill_x264or5_picture(VideoFrame* videoFrame);
 
-    bool configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                    unsigned lookahead_, int bFrames_, unsigned threads_,
-                    bool annexB_, std::string preset_, unsigned gopTime);
+    bool configure0(int bitrate_, int fps_, int gop_, 
+                    int lookahead_, int bFrames_, int threads_,
+                    bool annexB_, std::string preset_, int gopTime);
     
 private:
     bool setGopReferenceTimeEvent(Jzon::Node* params);
-- 
2.43.0


From af1a5f08306541dbd2b830c3d424d3d2054ee4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:42 +0000
Subject: [PATCH 59/74] fix: refuse a reference time event without parameters

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 6d2743d..5ecf7b8 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -247,7 +247,7 @@ bool VideoEncoderX264or5::forceIntraEvent(Jzon::Node*)
 
 bool VideoEncoderX264or5::setGopReferenceTimeEvent(Jzon::Node* params)
 {
-    if (params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
+    if (params && params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
         std::string refTime_str = params->Get("referenceTime").ToString();
         refTime = std::chrono::microseconds(std::stoull(refTime_str));
         return true;
-- 
2.43.0


From fb3d5d32058d9578b7164bf672ee2faff5afaffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:28 +0000
Subject: [PATCH 60/74] fix: discard the newest frame of a queue only while it
 is full

---
 src/AVFramedQueue.cpp         | 5 +++++
 src/AVFramedQueue.hh          | 1 +
 src/SlicedVideoFrameQueue.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index b4c50e6..87baace 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -78,6 +78,8 @@ std::vector<int> AVFramedQueue::addFrame()
 
 int AVFramedQueue::removeFrame() 
 {
+    std::lock_guard<std::mutex> guard(discardMtx);
+    
     if (rear == front){
         return -1;
     }
@@ -92,6 +94,9 @@ void AVFramedQueue::doFlush()
 
 Frame* AVFramedQueue::forceGetRear()
 {
+    //NOTE: the queue must still be full when its newest frame is discarded
+    std::lock_guard<std::mutex> guard(discardMtx);
+    
     Frame *frame;
     while ((frame = getRear()) == NULL) {
         utils::warningMsg("Frame discarted by AVFramedQueue");
diff --git a/src/AVFramedQueue.hh b/src/AVFramedQueue.hh
index 0a10fa2..6d98164 100644
--- a/src/AVFramedQueue.hh
+++ b/src/AVFramedQueue.hh
@@ -90,6 +90,7 @@ protected:
     void doFlush();
     Frame* frames[MAX_FRAMES];
     unsigned max;
+    std::mutex discardMtx; // frames are discarded by the producer while the consumer may be removing them
 };
 
 /*! It represents a video AVFramedQueue */
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index e0eebef..a22a256 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -92,6 +92,9 @@ Frame* SlicedVideoFrameQueue::innerGetRear()
 
 Frame* SlicedVideoFrameQueue::innerForceGetRear()
 {
+    //NOTE: the queue must still be full when its newest frame is discarded
+    std::lock_guard<std::mutex> guard(discardMtx);
+    
     Frame *frame;
     while ((frame = innerGetRear()) == NULL) {
         utils::debugMsg("Frame discarted by X264 Circular Buffer");
-- 
2.43.0


From 1476380e7e7fa4f0901a1995f6e34a24f1c09d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:18 +0000
Subject: [PATCH 61/74] fix: run a filter that joins the readers of a queue

The frames already in the queue wait for it, and nobody else would run it
until the next frame is written.
---
 src/PipelineManager.cpp |  8 +++++++-
 src/WorkersPool.cpp     | 13 +++++++++++++
 src/WorkersPool.hh      |  1 +
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 14538fe..ceeb478 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -373,7 +373,13 @@ bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dst
         return false;
     }
 
-    return filters[cData.readers.front().rFilterId]->shareReader(filters[dstFId], dstRId, cData.readers.front().readerId);
+    if (!filters[cData.readers.front().rFilterId]->shareReader(filters[dstFId], dstRId, cData.readers.front().readerId)) {
+        return false;
+    }
+
+    //NOTE: the frames that are already in the queue wait for it too
+    pool->enableTask(dstFId);
+    return true;
 }
 
 bool PipelineManager::validCData(ConnectionData cData, int orgFId, int dstFId)
diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 9e474cb..55c3054 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -192,6 +192,19 @@ bool WorkersPool::addTask(Runnable* const task)
     return false;
 }
 
+bool WorkersPool::enableTask(const int id)
+{
+    std::unique_lock<std::mutex> guard(mtx);
+    if (runnables.count(id) == 0){
+        return false;
+    }
+    
+    queue.pushBack(runnables[id]);
+    guard.unlock();
+    qCheck.notify_one();
+    return true;
+}
+
 bool WorkersPool::removeTask(const int id)
 {
     std::unique_lock<std::mutex> guard(mtx);
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 78ced3b..84b24f9 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -65,6 +65,7 @@ public:
     ~WorkersPool();
         
     bool addTask(Runnable* const runnable);
+    bool enableTask(const int id);
     bool removeTask(const int id);
     void stop();
     
-- 
2.43.0


From 4c5b33b8a850fdd6e865b9a3b602859ad1264d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:17 +0000
Subject: [PATCH 62/74] fix: output RGB24 until the video resampler is
 configured

The output pixel format was read before it was set.
---
 src/modules/videoResampler/VideoResampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e43f949..28b0e6d 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -38,6 +38,7 @@ VideoResampler::VideoResampler() : OneToOneFilter()
 
     outputWidth = 0;
     outputHeight = 0;
+    outPixFmt = RGB24;
     libavOutPixFmt = getLibavPixFmt(outPixFmt);
 
     needsConfig = false;
-- 
2.43.0


From ee58a1095bc00cff4735580c8a24ec89689b1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:17 +0000
Subject: [PATCH 63/74] fix: check the whole configuration of the video
 resampler before applying it

A refused configuration left the resampler without a pixel format, and
YUVJ420P, which it can output, was refused.
---
 src/modules/videoResampler/VideoResampler.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 28b0e6d..732b93c 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -161,11 +161,17 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFormat) 
 {
+    AVPixelFormat libavPixFmt = getLibavPixFmt(pixelFormat);
+
+    if (libavPixFmt == AV_PIX_FMT_NONE || width < 0 || height < 0){
+        return false;
+    }
+
     outputWidth = width;
     outputHeight = height;
     outPixFmt = pixelFormat;
     
-    libavOutPixFmt = getLibavPixFmt(outPixFmt);
+    libavOutPixFmt = libavPixFmt;
     needsConfig = true;
     
     if (fps <= 0) {
@@ -174,10 +180,6 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (libavOutPixFmt == AV_PIX_FMT_NONE){
-        return false;
-    }
-    
     return true;
 }
 
@@ -213,7 +215,7 @@ bool VideoResampler::configEvent(Jzon::Node* params)
     
     if (params->Has("pixelFormat")){
         int pixel = params->Get("pixelFormat").ToInt();
-        if ((pixel < P_NONE) || (pixel > YUYV422)) {
+        if ((pixel < P_NONE) || (pixel > YUVJ420P)) {
             return false;
         }
         pixelType = static_cast<PixType> (pixel);
-- 
2.43.0


From 7b92cae0486ed42dfe1efef039f75b70a6286bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:17 +0000
Subject: [PATCH 64/74] fix: do not write a resampled picture past the end of
 its frame

---
 src/modules/videoResampler/VideoResampler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 732b93c..62db36d 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -108,7 +108,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
 bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 {
     int outWidth, outHeight;
-    int height;
+    int height, outLength;
 
     VideoFrame* dstFrame = dynamic_cast<VideoFrame*>(dst);
     VideoFrame* orgFrame = dynamic_cast<VideoFrame*>(org);
@@ -133,7 +133,13 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
         outHeight = outputHeight;
     }
     
-    dstFrame->setLength(av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1));
+    outLength = av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1);
+    if (outLength <= 0 || (unsigned)outLength > dstFrame->getMaxLength()){
+        utils::errorMsg("[Resampler] The output picture does not fit its frame");
+        return false;
+    }
+
+    dstFrame->setLength(outLength);
     dstFrame->setSize(outWidth, outHeight);
     dstFrame->setPixelFormat(outPixFmt);
 
-- 
2.43.0


From fddcde08c41f519ffeac1addb6d109df7fd77b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:17 +0000
Subject: [PATCH 65/74] fix: release the previous context of the video
 resampler

---
 src/modules/videoResampler/VideoResampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 62db36d..4fd7477 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -91,6 +91,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
             outHeight = outputHeight;
         }
         
+        sws_freeContext(imgConvertCtx);
         imgConvertCtx = sws_getContext(orgFrame->getWidth(), orgFrame->getHeight(), 
                                        libavInPixFmt, outWidth, outHeight,
                                        libavOutPixFmt, SWS_FAST_BILINEAR, 0, 0, 0);
-- 
2.43.0


From 8fe11ec9c6f72e437d63eaa9d5c91ede68c73520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:49 +0000
Subject: [PATCH 66/74] fix: reconfigure a running camera as requested

A reconfiguration of a running capture went to the previous device, with
the flag of the forced format as frame rate and the default format, and
succeeded without effect when it could not stop. A rate of zero divided
by zero.
---
 src/modules/V4LCapture/V4LCapture.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index d5c2c2c..97c9991 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -60,6 +60,11 @@ V4LCapture::~V4LCapture()
 
 bool V4LCapture::configure(std::string device, unsigned width, unsigned height, unsigned fps, std::string format, bool fFormat)
 {
+    if (fps == 0) {
+        utils::errorMsg("[V4LCapture] The frame rate must be positive");
+        return false;
+    }
+
     forceFormat = fFormat;
     switch (status) {
         case CLOSE:
@@ -78,11 +83,13 @@ bool V4LCapture::configure(std::string device, unsigned width, unsigned height,
             }
             break;
         case CAPTURE:
-            if (stopCapturing() && uninitDevice()){
-                return configure(device, width, height, fFormat);
+            if (!releaseDevice()){
+                return false;
             }
-            break;
+            return configure(device, width, height, fps, format, fFormat);
     }
+
+    this->device = device;
     
     frameDuration = std::chrono::microseconds((int)(std::micro::den/fps));
     
-- 
2.43.0


From f9289263d71da187d3d45f8be8b43876cda74c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:49 +0000
Subject: [PATCH 67/74] fix: release a camera that fails to stop

An unplugged camera could neither be released nor configured again.
---
 src/modules/V4LCapture/V4LCapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 97c9991..ba7e54e 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -512,9 +512,9 @@ bool V4LCapture::stopCapturing(void)
     }
 
     type = V4L2_BUF_TYPE_VIDEO_CAPTURE;
+    //NOTE: a device that went away cannot be stopped, but it has to be released
     if (xioctl(fd, VIDIOC_STREAMOFF, &type) < 0){
         utils::errorMsg("VIDIOC_STREAMOFF");
-        return false;
     }
     
     status = INIT;
-- 
2.43.0


From c19bdfa58f2606ec6b7f8b20cc3464512de1e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:49 +0000
Subject: [PATCH 68/74] fix: unmap the buffers of a camera whose initialisation
 fails

---
 src/modules/V4LCapture/V4LCapture.cpp | 28 ++++++++++++++++++++-------
 src/modules/V4LCapture/V4LCapture.hh  |  1 +
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index ba7e54e..50f25d7 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -308,6 +308,7 @@ bool V4LCapture::init_mmap(void)
 
             if (xioctl(fd, VIDIOC_QUERYBUF, &buf) < 0){
                 utils::errorMsg("Failed requesting v4l buffers");
+                unmapBuffers();
                 return false;
             }
 
@@ -321,6 +322,7 @@ bool V4LCapture::init_mmap(void)
 
             if (MAP_FAILED == buffers[n_buffers].data){
                   utils::errorMsg("Mmap failed");
+                  unmapBuffers();
                   return false;
             }
       }
@@ -328,6 +330,24 @@ bool V4LCapture::init_mmap(void)
       return true;
 }
 
+bool V4LCapture::unmapBuffers(void)
+{
+      bool success = true;
+
+      for (unsigned i = 0; i < n_buffers; ++i){
+          if (munmap(buffers[i].data, buffers[i].size) < 0){
+              utils::errorMsg("Failed unmapping buffers!");
+              success = false;
+          }
+      }
+
+      free(buffers);
+      buffers = NULL;
+      n_buffers = 0;
+
+      return success;
+}
+
 void V4LCapture::closeDevice(void)
 {
     if (status != OPEN){
@@ -457,15 +477,9 @@ bool V4LCapture::uninitDevice(void)
         return false;
     }
 
-    for (unsigned i = 0; i < n_buffers; ++i){
-        if (munmap(buffers[i].data, buffers[i].size) < 0){
-            utils::errorMsg("Failed unmapping buffers!");
-            return false;
-        }
-    }
+    unmapBuffers();
 
     CLEAR(fmt);
-    free(buffers);
     status = OPEN;
     return true;
 }
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index e03a6a4..c5ef6de 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -66,6 +66,7 @@ private:
     const bool getFrame(std::chrono::microseconds timeout, VideoFrame *dstFrame);
     
     bool init_mmap();
+    bool unmapBuffers();
 
     bool openDevice(std::string device);
     void closeDevice();
-- 
2.43.0


From 9d25deccb9626ec7c713ee4c5aec76df1db64c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:49 +0000
Subject: [PATCH 69/74] fix: announce raw pictures when a camera goes back from
 a coded format

---
 src/modules/V4LCapture/V4LCapture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 50f25d7..a7220d1 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -443,6 +443,8 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
     oStreamInfo->video.pixelFormat = pixelType(fmt.fmt.pix.pixelformat);
     if (oStreamInfo->video.pixelFormat == P_NONE){
         oStreamInfo->video.codec = codecType(fmt.fmt.pix.pixelformat);
+    } else {
+        oStreamInfo->video.codec = RAW;
     }
     
     CLEAR(fps);
-- 
2.43.0


From ef772f5affb563d91469d224f5aaf93f7686a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:49 +0000
Subject: [PATCH 70/74] fix: output the whole captured picture with its length

Only the first plane of planar pictures was copied, nothing of coded ones,
the length of the frame was never set, and a picture larger than the frame
was written past its end.
---
 src/modules/V4LCapture/V4LCapture.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index a7220d1..59948e4 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -220,6 +220,7 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
 {
 
     struct v4l2_buffer buf;
+    bool fits;
 
     CLEAR(buf);
 
@@ -230,8 +231,15 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         return false;
     }
     
-    memcpy(dstFrame->getDataBuf(), buffers[buf.index].data, 
-               fmt.fmt.pix.height * fmt.fmt.pix.bytesperline);
+    fits = buf.bytesused <= dstFrame->getMaxLength() && buf.bytesused <= buffers[buf.index].size;
+
+    if (fits) {
+        memcpy(dstFrame->getDataBuf(), buffers[buf.index].data, buf.bytesused);
+        dstFrame->setLength(buf.bytesused);
+    } else {
+        utils::errorMsg("[V4LCapture] The captured picture does not fit its frame");
+    }
+
     dstFrame->setSize(fmt.fmt.pix.width, fmt.fmt.pix.height);
     dstFrame->setPixelFormat(oStreamInfo->video.pixelFormat);
     
@@ -239,7 +247,7 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         return false;
     }
 
-    return true;
+    return fits;
 }
 
 bool V4LCapture::openDevice(std::string device)
-- 
2.43.0


From 5c9be3168e4244f0b38b87d88c115a1d794ce2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:49 +0000
Subject: [PATCH 71/74] fix: refuse camera events without parameters or with
 negative ones

---
 src/modules/V4LCapture/V4LCapture.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 59948e4..3acd768 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -583,7 +583,7 @@ void V4LCapture::doGetState(Jzon::Object &filterNode)
 bool V4LCapture::configureEvent(Jzon::Node* params)
 {
     utils::infoMsg("V4LCapture configure event");
-    if (!params->Has("device") || !params->Has("width") ||
+    if (!params || !params->Has("device") || !params->Has("width") ||
         !params->Has("height") || !params->Has("fps")) {
         return false;
     }
@@ -591,6 +591,8 @@ bool V4LCapture::configureEvent(Jzon::Node* params)
     if (!params->Get("width").IsNumber() || 
         !params->Get("height").IsNumber() ||
         !params->Get("fps").IsNumber() ||
+        params->Get("width").ToInt() <= 0 || params->Get("height").ToInt() <= 0 ||
+        params->Get("fps").ToInt() <= 0 ||
         (params->Has("forceformat") && !params->Get("forceformat").IsBool())) {
         return false;
     }
-- 
2.43.0


From e430e868a0dd73cf97815645be1e59d63d9ccf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 72/74] fix: take the frame rate of a camera from its time per
 frame

Only the denominator was used: a camera that answers 1001/30000 was run at
30000 frames per second, and one that answers 0 divided by zero.
---
 src/modules/V4LCapture/V4LCapture.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 3acd768..afc2c6b 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -374,6 +374,7 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
     struct v4l2_cropcap cropcap;
     struct v4l2_crop crop;
     struct v4l2_streamparm fps;
+    unsigned setFps = den;
     
     if (status != OPEN){
         return false;
@@ -466,10 +467,15 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
         return false;
     }
     
-    if (fps.parm.capture.timeperframe.denominator != den){
+    if (fps.parm.capture.timeperframe.numerator > 0 &&
+        fps.parm.capture.timeperframe.denominator >= fps.parm.capture.timeperframe.numerator) {
+        setFps = fps.parm.capture.timeperframe.denominator/fps.parm.capture.timeperframe.numerator;
+    }
+
+    if (setFps != den){
         utils::warningMsg("Couldn't set fps to " + std::to_string(den) + ". Set to " 
-            + std::to_string(fps.parm.capture.timeperframe.denominator));
-        den = fps.parm.capture.timeperframe.denominator;
+            + std::to_string(setFps));
+        den = setFps;
     }
 
     if (!init_mmap()){
-- 
2.43.0


From 853596ed4f8250c67b20037ced3f8dbc95afcda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 73/74] fix: output the YUV422P pictures that a camera can be
 configured to capture

---
 src/modules/V4LCapture/V4LCapture.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index afc2c6b..9bcd449 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -635,6 +635,9 @@ static PixType pixelType(unsigned pixelFormat)
         case V4L2_PIX_FMT_YUV420:
             return YUV420P;
             break;
+        case V4L2_PIX_FMT_YUV422P:
+            return YUV422P;
+            break;
         case V4L2_PIX_FMT_RGB24:
             return RGB24;
             break;
-- 
2.43.0


From 2bd09ab7d1e5426cefb293a1d9287e71c58d1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 74/74] fix: do not reconfigure a camera while it captures a
 picture

Events of head filters are executed at once, by the thread that sends
them: the buffers were unmapped while they were being read.
---
 src/modules/V4LCapture/V4LCapture.cpp | 6 ++++++
 src/modules/V4LCapture/V4LCapture.hh  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 9bcd449..fa998ed 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -65,6 +65,8 @@ bool V4LCapture::configure(std::string device, unsigned width, unsigned height,
         return false;
     }
 
+    std::lock_guard<std::recursive_mutex> guard(deviceMtx);
+
     forceFormat = fFormat;
     switch (status) {
         case CLOSE:
@@ -109,6 +111,8 @@ bool V4LCapture::specificWriterConfig(int /*writerID*/)
 
 bool V4LCapture::releaseDevice()
 {
+    std::lock_guard<std::recursive_mutex> guard(deviceMtx);
+
     switch (status) {
         case CAPTURE:
             if (!stopCapturing()){
@@ -129,6 +133,8 @@ bool V4LCapture::releaseDevice()
 
 bool V4LCapture::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret)
 {   
+    std::lock_guard<std::recursive_mutex> guard(deviceMtx);
+
     VideoFrame* frame = dynamic_cast<VideoFrame*> (dstFrames.begin()->second);
     
     if (!frame || status != CAPTURE){
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index c5ef6de..414fa11 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -26,6 +26,7 @@
 
 #include <string>
 #include <chrono>
+#include <mutex>
 #include <linux/videodev2.h>
 
 #include "../../Utils.hh"
@@ -88,6 +89,9 @@ private:
     struct v4l2_format fmt;
     DeviceStatus status;
     
+    //NOTE: events are executed while frames are captured
+    std::recursive_mutex deviceMtx;
+
     int fd;
 
     struct buffer   *buffers;
-- 
2.43.0

