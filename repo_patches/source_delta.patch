From 103d969bc1e3f44ae52426394d59fa64fbed4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 001/102] fix: count a pool task only once it is in the queue

push_task incremented tasks_total before queueing, so a push that threw
(bad_alloc) left the counter raised forever and wait_for_tasks() hung.
---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp      | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 42e87ee..38e0f39 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -173,11 +173,9 @@ public:
     template <typename F>
     void push_task(const F &task)
     {
+        const std::scoped_lock lock(queue_mutex);
+        tasks.push(std::function<void()>(task));
         tasks_total++;
-        {
-            const std::scoped_lock lock(queue_mutex);
-            tasks.push(std::function<void()>(task));
-        }
     }
 
     /**
-- 
2.43.0


From 4ea09b9a6123ac8845e8676542e87e0beb984f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 002/102] fix: take a consistent snapshot in get_tasks_running

The total and the queue size were read at different moments, so the
number of running tasks could exceed the number of workers, and a paused
wait could miss a task.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 38e0f39..7691cc7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -88,7 +88,8 @@ public:
      */
     ui32 get_tasks_running() const
     {
-        return tasks_total - (ui32)get_tasks_queued();
+        const std::scoped_lock lock(queue_mutex);
+        return tasks_total - (ui32)tasks.size();
     }
 
     /**
-- 
2.43.0


From 9c530f920a21584e4a846f573a6c4bb413a5a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 003/102] fix: check the pause flag while holding the queue
 lock

A worker that had looked at the flag just before it was set could pop and
start a task after pause and wait_for_tasks() had returned.
---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 7691cc7..aa8e4b0 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -350,12 +350,12 @@ private:
      * @brief Try to pop a new task out of the queue.
      *
      * @param task A reference to the task. Will be populated with a function if the queue is not empty.
-     * @return true if a task was found, false if the queue is empty.
+     * @return true if a task was found, false if the pool is paused or the queue is empty.
      */
     bool pop_task(std::function<void()> &task)
     {
         const std::scoped_lock lock(queue_mutex);
-        if (tasks.empty())
+        if (paused || tasks.empty())
             return false;
         else
         {
@@ -385,7 +385,7 @@ private:
         while (running)
         {
             std::function<void()> task;
-            if (!paused && pop_task(task))
+            if (pop_task(task))
             {
                 task();
                 tasks_total--;
-- 
2.43.0


From 1e729d4f765797b247b8bc450274f9c6308486c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 004/102] fix: make ThreadPool::sleep_duration atomic

It is a public knob that running workers read, so setting it was a data race.
---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index aa8e4b0..c85b107 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -317,7 +317,7 @@ public:
     /**
      * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
      */
-    ui32 sleep_duration = 1000;
+    std::atomic<ui32> sleep_duration = 1000;
 
 private:
     // ========================
@@ -371,8 +371,9 @@ private:
      */
     void sleep_or_yield()
     {
-        if (sleep_duration)
-            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
+        const ui32 duration = sleep_duration;
+        if (duration)
+            std::this_thread::sleep_for(std::chrono::microseconds(duration));
         else
             std::this_thread::yield();
     }
-- 
2.43.0


From 8f0b2f33eea489fce768ef546abb1514db196014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 005/102] fix: survive a thread that cannot be created in
 ThreadPool

When creating a worker failed, the joinable threads already created were
destroyed, which terminates the process. Join them and rethrow; a resize
that fails now leaves the pool as it was.
---
 .../include/ufjfmltk/core/ThreadPool.hpp      | 74 +++++++++++++------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index c85b107..7e0879b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -53,7 +53,7 @@ public:
     ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
         : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
     {
-        create_threads();
+        create_threads(threads.get(), thread_count, *running);
     }
 
     /**
@@ -62,8 +62,8 @@ public:
     ~ThreadPool()
     {
         wait_for_tasks();
-        running = false;
-        destroy_threads();
+        *running = false;
+        destroy_threads(threads.get(), thread_count);
     }
 
     // =======================
@@ -202,16 +202,27 @@ public:
      */
     void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
     {
+        const ui32 new_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
+        std::unique_ptr<std::atomic<bool>> new_running(new std::atomic<bool>(true));
+        std::unique_ptr<std::thread[]> new_threads(new std::thread[new_count]);
         bool was_paused = paused;
         paused = true;
         wait_for_tasks();
-        running = false;
-        destroy_threads();
-        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
-        threads.reset(new std::thread[thread_count]);
+        try
+        {
+            create_threads(new_threads.get(), new_count, *new_running);
+        }
+        catch (...)
+        {
+            paused = was_paused;
+            throw;
+        }
+        *running = false;
+        destroy_threads(threads.get(), thread_count);
+        running = std::move(new_running);
+        threads = std::move(new_threads);
+        thread_count = new_count;
         paused = was_paused;
-        running = true;
-        create_threads();
     }
 
     /**
@@ -325,24 +336,41 @@ private:
     // ========================
 
     /**
-     * @brief Create the threads in the pool and assign a worker to each thread.
+     * @brief Create the threads in the pool and assign a worker to each thread. If a thread cannot be created, the ones already created are stopped and joined before the exception leaves.
+     *
+     * @param new_threads The threads to create.
+     * @param count The number of threads.
+     * @param keep_running The flag which keeps these workers running.
      */
-    void create_threads()
+    void create_threads(std::thread *new_threads, const ui32 count, std::atomic<bool> &keep_running)
     {
-        for (ui32 i = 0; i < thread_count; i++)
+        ui32 i = 0;
+        try
         {
-            threads[i] = std::thread(&ThreadPool::worker, this);
+            for (; i < count; i++)
+            {
+                new_threads[i] = std::thread(&ThreadPool::worker, this, std::cref(keep_running));
+            }
+        }
+        catch (...)
+        {
+            keep_running = false;
+            destroy_threads(new_threads, i);
+            throw;
         }
     }
 
     /**
-     * @brief Destroy the threads in the pool by joining them.
+     * @brief Destroy threads of the pool by joining them.
+     *
+     * @param old_threads The threads to join.
+     * @param count The number of threads.
      */
-    void destroy_threads()
+    void destroy_threads(std::thread *old_threads, const ui32 count)
     {
-        for (ui32 i = 0; i < thread_count; i++)
+        for (ui32 i = 0; i < count; i++)
         {
-            threads[i].join();
+            old_threads[i].join();
         }
     }
 
@@ -379,11 +407,13 @@ private:
     }
 
     /**
-     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
+     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as its running flag is set to true.
+     *
+     * @param keep_running The flag of the generation of threads this worker belongs to.
      */
-    void worker()
+    void worker(const std::atomic<bool> &keep_running)
     {
-        while (running)
+        while (keep_running)
         {
             std::function<void()> task;
             if (pop_task(task))
@@ -408,9 +438,9 @@ private:
     mutable std::mutex queue_mutex = {};
 
     /**
-     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
+     * @brief An atomic variable indicating to the current workers to keep running. When set to false, those workers permanently stop working.
      */
-    std::atomic<bool> running = true;
+    std::unique_ptr<std::atomic<bool>> running = std::unique_ptr<std::atomic<bool>>(new std::atomic<bool>(true));
 
     /**
      * @brief A queue of tasks to be executed by the threads.
-- 
2.43.0


From 1fd0a6010ffc832c02fde2a3a9db753655a36aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 006/102] fix: wait for the submitted blocks when
 parallelize_loop fails

If submitting a block threw, the loop returned while earlier blocks were
still running on its destroyed stack frame.
---
 .../include/ufjfmltk/core/ThreadPool.hpp      | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 7e0879b..9f6793b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -153,11 +153,23 @@ public:
             T start = ((T)(t * block_size) + the_first_index);
             T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
             blocks_running++;
-            push_task([start, end, &loop, &blocks_running]
-                      {
-                          loop(start, end);
-                          blocks_running--;
-                      });
+            try
+            {
+                push_task([start, end, &loop, &blocks_running]
+                          {
+                              loop(start, end);
+                              blocks_running--;
+                          });
+            }
+            catch (...)
+            {
+                blocks_running--;
+                while (blocks_running != 0)
+                {
+                    sleep_or_yield();
+                }
+                throw;
+            }
         }
         while (blocks_running != 0)
         {
-- 
2.43.0


From 0767d1766e1f014a7946a0bba79d111324e1406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 007/102] fix: compute parallelize_loop blocks without signed
 overflow

Ranges wider than half of a signed type, or ending at its maximum,
overflowed while splitting.
---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 9f6793b..ba0e889 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -137,10 +137,9 @@ public:
             last_index = the_first_index;
             the_first_index = temp;
         }
-        last_index--;
         if (num_blocks == 0)
             num_blocks = thread_count;
-        ui64 total_size = (ui64)(last_index - the_first_index + 1);
+        ui64 total_size = (ui64)last_index - (ui64)the_first_index;
         ui64 block_size = (ui64)(total_size / num_blocks);
         if (block_size == 0)
         {
@@ -150,8 +149,8 @@ public:
         std::atomic<ui32> blocks_running = 0;
         for (ui32 t = 0; t < num_blocks; t++)
         {
-            T start = ((T)(t * block_size) + the_first_index);
-            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
+            T start = (T)((ui64)the_first_index + t * block_size);
+            T end = (t == num_blocks - 1) ? last_index : (T)((ui64)the_first_index + (t + 1) * block_size);
             blocks_running++;
             try
             {
-- 
2.43.0


From 6a99a6fb1a61fe1671b88ae2a7c913414f183f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 008/102] fix: address DistanceMatrix rows by point id when
 computing them

Rows were allocated by position but written by id, so for a dataset whose
ids are not in order (shuffled, split) worker threads wrote into rows
other threads were (re)allocating, past the end of short rows in the
triangular mode, and distances were lost.
---
 .../include/ufjfmltk/core/DistanceMatrix.hpp  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 340f042..703c789 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -40,17 +40,17 @@ namespace mltk::metrics::dist {
             
             auto loop = [data, this](const int a, const int b) {
                 for(size_t idx = a; idx < b; idx++) {
-                    this->rows[idx] = mltk::Point<double>((isDiagonal) ? idx+1 : data.size());
+                    const size_t row = data(idx).Id()-1;
 
-                    for(size_t j = 0; j < idx; j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }
-                    
-                    if(isDiagonal) continue;
+                    // each row is written only by the thread which owns its point
+                    this->rows[row] = mltk::Point<double>((isDiagonal) ? row+1 : this->rows.size());
+
+                    for(size_t j = 0; j < data.size(); j++){
+                        const size_t col = data(j).Id()-1;
 
-                    for(size_t j = idx+1; j < data.size(); j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }    
+                        if(col == row || (isDiagonal && col > row)) continue;
+                        this->rows[row][col] = this->dist_function(data(idx), data(j));
+                    }
                 }
             };
 
@@ -64,7 +64,12 @@ namespace mltk::metrics::dist {
         explicit DistanceMatrix(mltk::Data<double> &data, const bool isDiagonal = false, const size_t threads = std::thread::hardware_concurrency()) {
             this->threads = threads;
             this->isDiagonal = isDiagonal;
-            this->rows = mltk::Point<double>::Matrix(data.size());
+
+            size_t n_rows = data.size();
+            for(const auto& point: data.points()){
+                n_rows = std::max(n_rows, (size_t)point->Id());
+            }
+            this->rows = mltk::Point<double>::Matrix(n_rows);
             
             this->compute(data);
         }
-- 
2.43.0


From 64ea5ff6a36ffa83f1817d4e9757920303e28982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 009/102] fix: order neighbours consistently with a triangular
 distance matrix

The comparator called every pair involving the query itself equal, which
is not a strict weak ordering, so nth_element could select points that
are not the nearest ones. The distance of the query to itself is zero.
---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index ba533b3..cf4f035 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -98,15 +98,17 @@ namespace mltk{
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
                             
-                            if(idp == id1 || idp == id2) return false;
-
                             size_t idp1 = (idp > id1) ? idp : id1;
                             size_t id1p = (idp > id1) ? id1 : idp;
                             
                             size_t idp2 = (idp > id2) ? idp : id2;
                             size_t id2p = (idp > id2) ? id2 : idp;
 
-                            return this->distances[idp1][id1p] < this->distances[idp2][id2p];
+                            // the distance of the point to itself is not stored
+                            double d1 = (idp == id1) ? 0.0 : this->distances[idp1][id1p];
+                            double d2 = (idp == id2) ? 0.0 : this->distances[idp2][id2p];
+
+                            return d1 < d2;
                         });
                     }
                 }
-- 
2.43.0


From 6079706f67b6a29abbb12b54aecddfc601e639ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 010/102] fix: measure elapsed time with a steady clock

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp
index f7f4ffe..ddb0dd5 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <cstdio>
 #include <ctime>
 #include <chrono>
@@ -15,7 +16,7 @@ namespace mltk{
      */
     class  Timer {
     private:
-        using Clock = std::chrono::high_resolution_clock;
+        using Clock = std::chrono::steady_clock;
         typename Clock::time_point start_point;
     public:
         /**
-- 
2.43.0


From 583a6389bfc3986f6049e83d66ad811c11e12bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:52 +0000
Subject: [PATCH 011/102] fix: draw k-means initial centers from inside the
 dataset

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b4f68b7..1e5c865 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -104,7 +104,7 @@ namespace mltk{
 
                     // generate the ids of the centers in the dataset using the random number generator function
                     std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size));
+                        return mltk::random::intInRange(0, int(size)-1);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -113,7 +113,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size))]->X();
+                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size)-1)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
@@ -132,7 +132,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size));
+                        size_t center = mltk::random::intInRange(0, int(size)-1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 34581590569a9973df2caacc5a7d5188a9519b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:52 +0000
Subject: [PATCH 012/102] fix: compute k-means centers as the mean of their own
 points

---
 .../include/ufjfmltk/clusterer/KMeans.hpp         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 1e5c865..8a1aa62 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -76,16 +76,17 @@ namespace mltk{
             void KMeans<T, Callable>::compute_centers(){
                 int i = 0;
                 std::for_each(this->m_clusters.begin(), this->m_clusters.end(), [&](const auto& cluster){
-                    for(const size_t id: cluster){
-                        this->m_centers[i] += *this->samples->point(id);
+                    // a center without points stays where it is
+                    if(cluster.size() > 0){
+                        mltk::Point<T> mean(this->samples->dim(), 0.0);
+                        for(const size_t id: cluster){
+                            mean += *this->samples->point(id);
+                        }
+                        mean /= cluster.size();
+                        this->m_centers[i] = mean;
                     }
                     i++;
                 });
-                i = 0;
-                std::for_each(this->m_centers.begin(), this->m_centers.end(), [&](auto& center){
-                   center /= this->m_clusters[i].size();
-                   i++;
-                });
             }
 
             template<typename T, typename Callable>
-- 
2.43.0


From fc2888dd0aebe6b17531ff0a98ece5a11c29d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 013/102] fix: rebuild k-means clusters from scratch, addressed
 by position in the dataset

---
 .../include/ufjfmltk/clusterer/KMeans.hpp             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 8a1aa62..894d674 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -59,14 +59,18 @@ namespace mltk{
             double KMeans<T, Callable>::assign_clusters(const std::vector<mltk::PointPointer<T>>& points) {
                 double sum_d = 0;
                 double cost = 0.0;
+                size_t idx = 0;
 
+                for(auto& cluster: this->m_clusters){
+                    cluster.clear();
+                }
                 std::for_each(points.begin(), points.end(), [&](const std::shared_ptr<Point<T> > q){
                     std::vector<double> distances(this->m_centers.size(), 0.0);
                     std::transform(this->m_centers.begin(), this->m_centers.end(), distances.begin(), [&](const Point<T>& center){
                         return this->dist_function(*q, center);
                     });
                     size_t cluster_id = std::min_element(distances.begin(), distances.end()) - distances.begin();
-                    this->m_clusters[cluster_id].X().push_back(q->Id()-1);
+                    this->m_clusters[cluster_id].X().push_back(idx++);
                     cost += distances[cluster_id] * distances[cluster_id];
                 });
                 return cost;
@@ -148,7 +152,7 @@ namespace mltk{
                     old_cost = cost;
                     has_converged = true;
                     // assign each point to the nearest cluster
-                    cost = assign_clusters(points);
+                    cost = assign_clusters(this->samples->points());
                     // update the centers of the clusters
                     compute_centers();
 
@@ -161,9 +165,6 @@ namespace mltk{
                     }
                     if (time - this->timer.elapsed() <= 0) break;
                     has_converged = fabs(cost - old_cost) <= this->EPS;
-                    for(auto& cluster: this->m_clusters){
-                        cluster.clear();
-                    }
                 } while (!has_converged);
 
                 return true;
-- 
2.43.0


From b0d5d54269b514c8ed545751a73d7ea3db590ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 014/102] fix: keep the fraction of the k-means time budget

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 894d674..a3a4acc 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -97,7 +97,7 @@ namespace mltk{
             bool KMeans<T, Callable>::train() {
                 double cost = 0.0, old_cost = 0.0;
                 size_t dim = this->samples->dim(), size = this->samples->size();
-                size_t time = this->start_time + this->max_time;
+                double time = this->start_time + this->max_time;
                 auto points = this->samples->points();
                 bool has_converged = true;
                 mltk::random::init(this->seed);
-- 
2.43.0


From 506eda7e6260579a82b7441146060d45ae098438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 015/102] fix: keep the fraction of the LMS time budget

---
 .../ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 3c0eb2d..3211722 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -39,7 +39,7 @@ namespace mltk{
         template<typename T>
         bool LMSPrimal<T>::train() {
             size_t j = 0, k = 0, size = this->samples->size(), dim = this->samples->dim();
-            size_t time = this->start_time + this->max_time;
+            double time = this->start_time + this->max_time;
             double diff = 0.0, diffAnt = 0.0, cost_func = 0.0;
             std::vector<double> func(size, 0.0);
 
-- 
2.43.0


From 879b8a48d2c8d02eff3b534f5872fa46423b30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 016/102] fix: keep IMAp within its time budget

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0ff4e8c..93c39ef 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -223,11 +223,9 @@ namespace mltk{
             imapFixMargin.setMaxIterations(this->MAX_IT);
             imapFixMargin.setMaxTime(this->max_time);
             this->timer.reset();
-            stime = this->timer.elapsed();
-            imapFixMargin.setStartTime(stime);
             *imapFixMargin.getFlagNot1aDim() = flagNao1aDim;
             while (imapFixMargin.train()) {
-                stime += this->timer.elapsed();
+                stime = this->timer.elapsed();
 
                 this->ctot = imapFixMargin.getCtot();
                 this->steps = imapFixMargin.getSteps();
@@ -305,6 +303,8 @@ namespace mltk{
                 if(it > this->MAX_IT) break;
                 if(stime >= this->max_time) break;
                 if (flagNao1aDim) break;
+                // the next call may only use the time that is left
+                imapFixMargin.setMaxTime(this->max_time - stime);
             }
              this->svs.erase(this->svs.begin(), this->svs.end());
              for(i = 0; i < size; ++i)
-- 
2.43.0


From 04dca40c1d3fc0f5d063ba054f5033d1f2e1163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 017/102] fix: keep IMADual within its time budget

---
 .../include/ufjfmltk/classifier/IMA.hpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 93c39ef..0621efe 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -599,11 +599,9 @@ namespace mltk{
             percDual.setMaxUpdates(this->MAX_UP);
             percDual.setMaxIterations(this->MAX_IT);
 
-            stime = this->timer.elapsed();
-
             while (percDual.train()) {
                 points = percDual.getSamples()->points();
-                stime += percDual.getElapsedTime();
+                stime = this->timer.elapsed();
                 this->samples->setIndex(percDual.getSamples()->getIndex());
                 //Finding minimum and maximum functional values
                 this->ctot = percDual.getCtot();
@@ -640,6 +638,9 @@ namespace mltk{
                     break;
                 }
                 old_rmargin = rmargin;
+                if(stime >= this->max_time) break;
+                // the next call may only use the time that is left
+                percDual.setMaxTime(this->max_time - stime);
             }
             this->ctot = percDual.getCtot();
             this->steps = percDual.getSteps();
-- 
2.43.0


From d55abad16fa9bd57bfc61d504751fbb1349a8ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 018/102] fix: initialise the limits of IMApFixedMargin

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0621efe..64feffc 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -52,9 +52,9 @@ namespace mltk{
         template<typename T = double>
         class IMApFixedMargin : public PrimalClassifier<T> {
         private:
-            int n, maiorn = 0, flagNao1aDim;
+            int n = 1, maiorn = 0, flagNao1aDim = 0;
             double margin = 0.0, maiorw = 0.0;
-            unsigned long tMax;
+            unsigned long tMax = 0;
 
             /// Support vector.
             std::vector<int> svs;
-- 
2.43.0


From 4f05405810c69b952f39b6ea2b91a143bb1f903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 019/102] fix: restart the random sequence for every given seed

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 33 ++++++++++++++++++----
 subprojects/ufjfmltk-core/src/Random.cpp   |  3 +-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index c26fe0f..e32205a 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -5,6 +5,21 @@
 #include "ufjfmltk/core/Datasets.hpp"
 
 namespace mltk::datasets {
+    // fill a point from the generator as it stands, without seeding it again
+    template <typename Distribution = std::uniform_real_distribution<double>>
+    static mltk::Point<double> draw_point(size_t size, double val1 = 0.0, double val2 = 1.0) {
+        mltk::Point<double> p(size, 0.0);
+
+        for (auto &x: p) {
+            x = mltk::random::floatInRange<double, Distribution>(val1, val2);
+        }
+        return p;
+    }
+
+    static BlobsPair draw_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                                const std::vector<double> &clusters_std, int n_dims, bool shuffle, bool has_classes,
+                                size_t seed);
+
     mltk::Data<double> make_spirals(size_t n_samples, int n_classes, bool shuffle, double noise, size_t n_loops,
                                     double margin, size_t seed) {
         mltk::random::init(seed);
@@ -13,12 +28,12 @@ namespace mltk::datasets {
 
         dataset.setName("spirals");
 
-        mltk::Point<> theta = mltk::random_init<double>(samples_byclass, seed) * n_loops * 360.0 * M_PI / 180.0;
+        mltk::Point<> theta = draw_point(samples_byclass) * n_loops * 360.0 * M_PI / 180.0;
         mltk::Point<> r = theta * margin * n_classes;
         for (int i = 0; i < n_classes; i++) {
             mltk::Point<> rotated_theta = theta + i * 2.0 * M_PI / n_classes;
-            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
-            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
+            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + draw_point(samples_byclass) * noise;
+            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + draw_point(samples_byclass) * noise;
 
             for (size_t j = 0; j < samples_byclass; j++) {
                 auto point = mltk::Point<double>({x1[j], x2[j]});
@@ -56,13 +71,19 @@ namespace mltk::datasets {
             }
         });
 
-        return make_blobs(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
+        return draw_blobs(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
     }
 
     BlobsPair make_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
                          std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
                          size_t seed) {
         mltk::random::init(seed);
+        return draw_blobs(n_samples, centers, clusters_std, n_dims, shuffle, has_classes, seed);
+    }
+
+    static BlobsPair draw_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                                const std::vector<double> &clusters_std, int n_dims, bool shuffle, bool has_classes,
+                                size_t seed) {
         mltk::Data<double> dataset;
         BlobsPair pair;
         dataset.setName("blobs");
@@ -114,8 +135,8 @@ namespace mltk::datasets {
         RegPair pair;
         mltk::Point<double> ground_truth(n_dims, 0.0), y(n_samples);
         n_informative = std::min(n_dims, n_informative);
-        auto random_init = [&n_dims, seed](const mltk::PointPointer<double> &point) {
-            *point = mltk::random_init<double, std::normal_distribution<double>>(0, 1, n_dims, seed);
+        auto random_init = [&n_dims](const mltk::PointPointer<double> &point) {
+            *point = draw_point<std::normal_distribution<double>>(n_dims, 0, 1);
         };
 
         dataset.apply(random_init);
diff --git a/subprojects/ufjfmltk-core/src/Random.cpp b/subprojects/ufjfmltk-core/src/Random.cpp
index 0498a7a..153c392 100755
--- a/subprojects/ufjfmltk-core/src/Random.cpp
+++ b/subprojects/ufjfmltk-core/src/Random.cpp
@@ -10,7 +10,8 @@ namespace mltk::random {
     std::mt19937 m_generator{std::random_device{}()};
 
     size_t  init(unsigned int seed) {
-        if(seed != seed_param){
+        // a given seed always restarts its sequence; 0 asks for an arbitrary one
+        if(seed != 0 || seed != seed_param){
             m_generator.discard(std::mt19937::state_size);
             seed_param = seed;
             m_seed = (seed == 0)?std::random_device {} (): seed;
-- 
2.43.0


From cab3cc3bc99b4f303c0e7eccf4afcfb159437521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 020/102] fix: draw the k-means++ centers from the distances
 distribution

---
 .../include/ufjfmltk/clusterer/KMeans.hpp          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index a3a4acc..0780480 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -131,13 +131,15 @@ namespace mltk{
                                            sum_d += d;
                                            return d;
                                        });
-                        for (double &distance : distances) {
-                            distance /= sum_d;
-                        }
-                        // use the distances as a probability distribution
-                        std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size)-1);
+                        size_t center;
+                        if (sum_d > 0) {
+                            // use the distances as a probability distribution
+                            std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
+                            center = _dist(mltk::random::m_generator);
+                        } else {
+                            center = mltk::random::intInRange(0, int(size)-1);
+                        }
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 84efa37901429438e2e7ed171ac64a5b0412548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 021/102] fix: report failure when a primal perceptron ran no
 pass at all

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 05eb6f7..38f4455 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         template<typename T>
         bool PerceptronPrimal<T>::train() {
             size_t size = this->samples->size(), dim = this->samples->dim();
-            int i, j, e = 0, idx;
+            int i, j, e = 1, idx;
             double y, time = this->start_time + this->max_time;
             bool cond;
             std::vector<double> func(size, 0);
@@ -256,7 +256,7 @@ namespace mltk{
 
             if (func.empty()) func.resize(size);
             if (w.empty()) w.resize(dim);
-            e = s = 0;
+            e = 1, s = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
                 for (e = 0, i = 0; i < size; ++i) {
-- 
2.43.0


From 8a8f32fa27271dadaab8965808d81b07a7f26c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 022/102] fix: size the multipliers of PerceptronDual to the
 samples it trains on

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 38f4455..97533e8 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -413,7 +413,7 @@ namespace mltk{
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
             iota(index.begin(), index.end(), 0);
-            if (this->alpha.empty()) {
+            if (this->alpha.size() != size) {
                 this->alpha.assign(size, 0.0);
             }
             if(!initial){
@@ -452,7 +452,7 @@ namespace mltk{
             this->solution.norm = norm;
             this->solution.alpha = this->alpha;
             this->solution.margin = 0.0;
-            this->solution.w.resize(dim);
+            this->solution.w = Point<double>(dim, 0.0);
 
             for (i = 0; i < size; i++) {
                 for (j = 0; j < dim; j++) {
-- 
2.43.0


From d2f26e0f6c107a1271435b2b0dea63f167bd29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 023/102] fix: keep the functional values and the norm of
 PerceptronFixedMarginDual consistent with its multipliers

---
 .../ufjfmltk/classifier/Perceptron.hpp        | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 97533e8..92c37ea 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -479,12 +479,12 @@ namespace mltk{
         template<typename T>
         bool PerceptronFixedMarginDual<T>::train() {
             size_t e, i, j, k, s, idx, r, size = this->samples->size(), dim = this->samples->dim();
-            double y, lambda, norm = this->solution.norm, time = this->start_time + this->max_time;
+            double y, lambda, f, norm = 0.0, time = this->start_time + this->max_time;
             double bias = this->solution.bias;
             const double sqrate = this->rate * this->rate;
             const double tworate = 2 * this->rate;
             std::vector<int> index = this->samples->getIndex();
-            std::vector<double> func = this->solution.func.X(), Kv;
+            std::vector<double> func(size, bias), Kv;
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
 
@@ -492,7 +492,14 @@ namespace mltk{
                 this->alpha.resize(this->samples->size());
             }
 
-            if (func.empty()) { func.resize(size); }
+            //the samples may carry multipliers from an earlier training
+            for (i = 0; i < size; ++i) {
+                for (j = 0; j < size; ++j) {
+                    func[i] += (*this->samples)[j]->Alpha() * (*this->samples)[j]->Y() * (*K)[j][i];
+                }
+                norm += (*this->samples)[i]->Alpha() * (*this->samples)[i]->Y() * (func[i] - bias);
+            }
+            norm = sqrt(std::max(norm, 0.0));
             e = 1, s = 0;
             this->timer.reset();
 
@@ -504,16 +511,17 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
+                        f = func[idx];
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
                             func[r] = lambda * func[r] + this->rate * y * ((*K)[idx][r] + 1) + bias * (1 - lambda);
                         }
 
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
-                                    sqrate * (*K)[idx][idx]);
+                        norm = sqrt(std::max(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (f - bias) +
+                                    sqrate * (*K)[idx][idx], 0.0));
                         (*this->samples)[idx]->Alpha() += this->rate;
 
                         bias += this->rate * y;
@@ -538,7 +546,7 @@ namespace mltk{
             this->solution.bias = bias;
             this->solution.norm = norm;
             this->solution.func = func;
-            this->solution.w.resize(dim);
+            this->solution.w = Point<double>(dim, 0.0);
             this->solution.alpha.resize(size);
             for (i = 0; i < dim; i++) {
                 for (j = 0; j < size; j++) {
-- 
2.43.0


From 42740283c49820ca658c0a3166c96cc1b872e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 024/102] fix: return the bias of the last separating solution
 in IMADual

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 64feffc..f6029a7 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -647,7 +647,7 @@ namespace mltk{
             sol = percDual.getSolution();
             this->alpha = percDual.getAlphaVector();
             norm = sol.norm;
-            this->solution.bias = sol.bias;
+            if (!it) this->solution.bias = sol.bias;
             func = sol.func.X();
 
             for (i = 0; i < size; ++i) {
-- 
2.43.0


From fbdb0db14d0e39cf0a3320667ba400c72230fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:21 +0000
Subject: [PATCH 025/102] fix: classify by the sign of the decision function in
 IMAp

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index f6029a7..ce90936 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -360,7 +360,7 @@ namespace mltk{
             for (func = this->solution.bias, i = 0; i < dim; i++) {
                 func += this->solution.w[i] * p[i];
             }
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
@@ -517,7 +517,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From e6677e7b1e9a0e0acb7d6370a9b5e1a685bdddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:21 +0000
Subject: [PATCH 026/102] fix: compute the norm in dual variables as a double
 sum

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 87e8e01..1d8f42f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -302,10 +302,10 @@ namespace mltk{
         sum = sum1 = 0;
 
         for(i = 0; i < size; ++i){
-            for(j = 0; j < size; j++){
+            for(sum1 = 0, j = 0; j < size; j++){
                 sum1 += points[j]->Alpha() * points[j]->Y() * K[i][j];
-                sum += points[i]->Y() * points[i]->Alpha() * sum1;
             }
+            sum += points[i]->Y() * points[i]->Alpha() * sum1;
         }
 
         return sqrt(sum);
-- 
2.43.0


From cf25f3d00ff34b9e571613970e39fcf1e1427c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:39 +0000
Subject: [PATCH 027/102] fix: evaluate the SMO objective at the upper end of
 the step

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index f743972..4b8405e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -316,7 +316,7 @@ namespace mltk{
                     double c1 = eta / 2.0;
                     double c2 = y2 * (e1 - e2) - eta * alpha2;
                     min_val_f = c1 * min_val * min_val + c2 * min_val;
-                    max_val_f = c1 * max_val * max_val + c2 * min_val;
+                    max_val_f = c1 * max_val * max_val + c2 * max_val;
 
                     if (min_val_f > max_val_f + this->EPS) new_alpha2 = min_val;
                     else if (min_val_f < max_val_f - this->EPS) new_alpha2 = max_val;
-- 
2.43.0


From bfe51f2a5e1de93fd96d214bf8b896e1305ffac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:54 +0000
Subject: [PATCH 028/102] fix: report failure when SMO drives a multiplier to
 its bound

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 4b8405e..2a91c9f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -131,7 +131,7 @@ namespace mltk{
                 for (i = 0; i < size; ++i) {
                     this->solution.alpha[i] = (*this->samples)[i]->Alpha();
                     if ((*this->samples)[i]->Alpha() > 0) ++this->solution.svs;
-                    if ((*this->samples)[i]->Alpha() > this->C) ret = false;
+                    if ((*this->samples)[i]->Alpha() >= this->C) ret = false;
                 }
 
                 if (this->verbose) {
@@ -498,7 +498,7 @@ namespace mltk{
                 this->solution.svs = 0;
                 for (i = 0; i < size; ++i) {
                     if ((*this->samples)[i]->Alpha() > 0) ++this->solution.svs;
-                    if ((*this->samples)[i]->Alpha() > this->C) ret = false;
+                    if ((*this->samples)[i]->Alpha() >= this->C) ret = false;
                 }
 
                 int_dll::free(&this->head);
-- 
2.43.0


From fadba7c50c7e81eabdc05a397ff392df2495ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:09 +0000
Subject: [PATCH 029/102] fix: size the H matrix to the samples it is generated
 for

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 1d8f42f..c8241cb 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         int i = 0, j = 0;
         size_t size = samples->size(), dim = samples->dim();
 
-        H.resize(size, std::vector<double>(size));
+        H.assign(size, std::vector<double>(size));
 
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
-- 
2.43.0


From e2cd27f95f38387213fe1cd3317cea709a885092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:28 +0000
Subject: [PATCH 030/102] fix: grant no slack to diverged multipliers when
 there is no flexibility

---
 .../include/ufjfmltk/classifier/IMA.hpp            | 14 +++++++-------
 .../include/ufjfmltk/classifier/Perceptron.hpp     |  2 +-
 .../ufjfmltk/classifier/PrimalClassifier.hpp       |  6 ++++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index ce90936..b08addb 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -238,13 +238,13 @@ namespace mltk{
                 for (min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     y = points[i]->Y();
                     alpha = points[i]->Alpha();
-                    if ((func[i] + y * alpha * this->flexible) >= 0 &&
-                        min > (func[i] + y * alpha * this->flexible) / norm) {
-                        min = (func[i] + y * alpha * this->flexible) / norm;
+                    if ((func[i] + y * this->slack(alpha)) >= 0 &&
+                        min > (func[i] + y * this->slack(alpha)) / norm) {
+                        min = (func[i] + y * this->slack(alpha)) / norm;
                     }
-                    else if ((func[i] + y * alpha * this->flexible) < 0 &&
-                             max < (func[i] + y * alpha * this->flexible) / norm)
-                        max = (func[i] + y * alpha * this->flexible) / norm;
+                    else if ((func[i] + y * this->slack(alpha)) < 0 &&
+                             max < (func[i] + y * this->slack(alpha)) / norm)
+                        max = (func[i] + y * this->slack(alpha)) / norm;
                 }
                 //Saving good weights
                 //std::cout << min << " " << max << std::endl;
@@ -413,7 +413,7 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - (*this->samples)[idx]->Alpha() * this->flexible) {
+                    if (y * func[idx] <= this->gamma * norm - this->slack((*this->samples)[idx]->Alpha())) {
                         lambda = (norm) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r)
                             (*this->samples)[r]->Alpha() *= lambda;
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 92c37ea..aa5242b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -271,7 +271,7 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - this->samples->point(idx)->Alpha() * this->flexible) {
+                    if (y * func[idx] <= this->gamma * norm - this->slack(this->samples->point(idx)->Alpha())) {
                         lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r) {
                             std::shared_ptr<Point<T> > b = this->samples->point(r);
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a57f638..a557794 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -24,6 +24,12 @@ namespace mltk{
                 double flexible = 0.0;
                 /// Percentage of aproximation of the result.
                 double alpha_aprox = 0.0;
+
+                /**
+                 * \brief Margin slack granted to a point. Without flexibility there is none, even for
+                 * a multiplier that has diverged (infinity times zero is not a number).
+                 */
+                double slack(double alpha) const { return (flexible != 0.0) ? alpha * flexible : 0.0; }
             public:
 
                 PrimalClassifier<T>() {}
-- 
2.43.0


From b5a19deb1c3716898819471699c59e8ef8ff95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 031/102] fix: initialise the margin of a default constructed
 IMAp

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index b08addb..1f84608 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -25,7 +25,7 @@ namespace mltk{
         template<typename T = double>
         class IMAp : public PrimalClassifier<T> {
         private:
-            double margin;
+            double margin = 0.0;
             /// Support vector.
             std::vector<int> svs;
 
-- 
2.43.0


From 8e9b85159d4831a5c9ae119ec55ebebd10a76a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 032/102] fix: cache the true SMO errors of the two updated
 samples

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 2a91c9f..80fa42f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -385,16 +385,13 @@ namespace mltk{
                 itr = this->head->next;
                 while (itr != nullptr) {
                     i = itr->index;
-                    if ((i != i1 && i != i2) && (*this->samples)[i]->Alpha() < C) {
+                    if ((*this->samples)[i]->Alpha() < C) {
                         this->l_data[i].error = function(i) - (*this->samples)[i]->Y();
                         error_tot += this->l_data[i].error;
                     }
                     itr = itr->next;
                 }
 
-                this->l_data[i1].error = 0.0;
-                this->l_data[i2].error = 0.0;
-
                 if (this->verbose > 1)
                     std::cout << "Total error= " << error_tot << ", alpha(" << i1 << ")= " << new_alpha1 << ", alpha(" << i2
                          << ")= " << new_alpha2 << std::endl;
-- 
2.43.0


From 647e4d3cdee19192baf8706b83cdccb71fc6bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 033/102] fix: keep the norm in dual variables a number

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index c8241cb..1454dba 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -308,7 +308,8 @@ namespace mltk{
             sum += points[i]->Y() * points[i]->Alpha() * sum1;
         }
 
-        return sqrt(sum);
+        // rounding may leave a sum that should vanish just below zero
+        return sqrt((sum > 0) ? sum : 0.0);
     }
 
     template < typename T >
-- 
2.43.0


From 9cbd3631cabdf81c1486d823d3eb20037023127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 034/102] fix: do not let the shrinking of
 PerceptronFixedMarginDual turn multipliers negative

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index aa5242b..289be4e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -511,7 +511,7 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (norm != 0.0) ? std::max(1 - this->rate * this->gamma / norm, 0.0) : 1;
                         norm *= lambda;
                         f = func[idx];
 
-- 
2.43.0


From 119212b0ebefd4ce067f8e58890afdfd48586a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 035/102] fix: keep every multiplier of the solution IMADual
 returns

---
 .../include/ufjfmltk/classifier/IMA.hpp                    | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 1f84608..fdbdf69 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -611,11 +611,8 @@ namespace mltk{
                 this->solution.bias = solr->bias;
 
                 for (sv = 0, min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
-                    if (points[i]->Alpha() > this->EPS * this->rate) {
-                        sv++;
-                        saved_alphas[i] = points[i]->Alpha();
-                    }
-                    else { saved_alphas[i] = 0.0; }
+                    if (points[i]->Alpha() > this->EPS * this->rate) { sv++; }
+                    saved_alphas[i] = points[i]->Alpha();
                     if (solr->func[i] >= 0 && min > solr->func[i] / norm) min = solr->func[i] / norm;
                     else if (solr->func[i] < 0 && max < solr->func[i] / norm) max = solr->func[i] / norm;
                 }
-- 
2.43.0


From 1f5a81821457e5123c324d650898773abe9d049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 036/102] fix: keep the norm of PerceptronDual a number

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 289be4e..b98f8b0 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -434,7 +434,7 @@ namespace mltk{
 
                     //Checking if the point is a mistake
                     if (y * f <= 0.0) {
-                        norm = std::sqrt(norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
+                        norm = std::sqrt(std::max(norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx], 0.0));
                         this->alpha[i] += this->rate;
                         bias += this->rate * y;
                         ++this->ctot, ++e;
-- 
2.43.0


From 230979b372c8531fdd84aec16ea3557f62a26670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:04 +0000
Subject: [PATCH 037/102] fix: let KMeans use the distance it is instantiated
 with

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 0780480..b514c4f 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -19,7 +19,7 @@ namespace mltk{
              * \brief Wrapper for the implementation of the K-Means clustering algorithm.
              */
             template<typename T = double, typename Callable = metrics::dist::Euclidean<T> >
-            class KMeans : public Clusterer<T> {
+            class KMeans : public Clusterer<T, Callable> {
             private:
                 /// Algorithm used for the initialization of the K-Means algorithm
                 std::string initialization;
@@ -48,7 +48,7 @@ namespace mltk{
             template<typename T, typename Callable>
             KMeans<T, Callable>::KMeans(const mltk::Data<T>& samples, size_t k, std::string initialization, size_t seed,
                                         int verbose)
-                    : Clusterer<T>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
+                    : Clusterer<T, Callable>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
                 this->m_centers.assign(this->n_clusters, std::vector<T>(this->samples->dim(), 0.0));
                 this->m_clusters.assign(this->n_clusters, std::vector<size_t>());
                 this->verbose = verbose;
-- 
2.43.0


From be253a1b478644211add483b9a9f9acd528d82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 038/102] fix: draw Data::sampling from every sample of a class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 123a324..422c4d8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2038,18 +2038,16 @@ namespace mltk{
         Point<double> class_dist(m_classes.size());
         std::vector<std::uniform_int_distribution<size_t>> dist;
 
-        auto temp_dist = classesDistribution();
-        for(int i = 0; i < temp_dist.size(); i++){
-            class_dist[i] = (double(temp_dist[i]) / size()) * samp_size;
-        }
         for(int i = 0; i < class_dist.size(); i++){
-            dist.emplace_back(0, class_dist[i]-1);
+            class_dist[i] = (double(classes_split[i].size()) / size()) * samp_size;
+            dist.emplace_back(0, classes_split[i].size()-1);
         }
         for(size_t i = 0; i < class_dist.size(); i++){
             class_dist[i] = (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
         }
 
         for(size_t i = 0; i < class_dist.size(); i++){
+            ids.clear();
             for(size_t j = 0; j < class_dist[i]; j++){
                 std::size_t idx = dist[i](gen);
                 if(!with_replacement) {
-- 
2.43.0


From eb7452cd88221652729122757f18af22a5bde966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 039/102] fix: let splitSample distribute every sample

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 422c4d8..2cf6334 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1857,7 +1857,6 @@ namespace mltk{
         std::map<std::string, int> label_map; 
         std::vector<mltk::Data<T>> partitions(split_size);
         mltk::Data<T> data = copy();
-        size_t new_size = std::floor(double(size()) / split_size);
         size_t _seed = (seed == 0) ? std::random_device{}() : seed;
 
         data.shuffle(_seed);
@@ -1889,12 +1888,11 @@ namespace mltk{
 
         size_t counter = 0;
         for(size_t i = 0; i < partitions.size(); i++) {
+            // the first size() % split_size partitions take one of the remaining samples each
+            size_t new_size = size() / split_size + ((i < size() % split_size) ? 1 : 0);
             for(size_t j = 0; j < new_size; j++) {
                 partitions[i].insertPoint(data[counter], keepIndex);
                 counter++;
-                if(counter == this->size()){
-                    return partitions;
-                }
             }
         }
         return partitions;
-- 
2.43.0


From b664b45b8665dc41bc4d38675ea45f9a826d335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 040/102] fix: test a two-fold split on the part it was not
 trained on

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 26d0d30..822e4e5 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -474,7 +474,7 @@ namespace mltk::validation {
             train.join(data_folds[i]);
 
             int gone = 0;
-            int next_j=(i+2) % folds;
+            int next_j=(i+1) % folds;
 
             for(int j = (i+1) % folds; gone < folds-2; gone++, j = (j+1) % folds){
                 train.join(data_folds[j]);
-- 
2.43.0


From bf270899c63836783b40452e0f1c338cf3f17bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 041/102] fix: start every cross-validation training from the
 initial solution

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 822e4e5..d6679c6 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -208,6 +208,8 @@ namespace mltk::validation {
         std::vector<double> w;
         auto classes = samples.classes();
         ValidationReport solution;
+        // what one execution learned must not reach the next one or the final validation
+        const Solution initial_solution = classifier.getSolution();
 
         //sample = train_sample;
 
@@ -217,6 +219,7 @@ namespace mltk::validation {
             for(errocross = 0, i = 0; i < qtde; i++)
             {
                 if(verbose) std::cout << "\nExecucao " << i + 1 << " / " << qtde << ":\n";
+                classifier.setSolution(initial_solution);
                 errocross += kfold(samples, classifier, fold, stratified, _seed + i, verbose).error;
             }
             if(verbose >= 1)std::cout << "\n\nErro " << fold << "-Fold Cross Validation: " << errocross/qtde << "%\n";
@@ -241,6 +244,7 @@ namespace mltk::validation {
         //training
         valid_pair.train.setClasses(samples.classes());
         classifier.setSamples(mltk::make_data<T>(valid_pair.train));
+        classifier.setSolution(initial_solution);
         classifier.setVerbose(0);
 
         bool isDual = (classifier.getFormulationString() == "Dual");
@@ -318,6 +322,8 @@ namespace mltk::validation {
         sample.shuffle(_seed);
         std::vector<TrainTestPair<T>> folds = kfoldsplit(sample, fold, stratified, true, seed);
         ValidationReport solution;
+        // a fold must not start from what was learned on another fold's training data, which holds its test data
+        const Solution initial_solution = classifier.getSolution();
 
         //Start cross-validation
         for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
@@ -335,6 +341,7 @@ namespace mltk::validation {
 
             // Training phase
             classifier.setSamples(_train_sample);
+            classifier.setSolution(initial_solution);
             Solution s = classifier.getSolution();
             bool isDual = classifier.getFormulationString() == "Dual";
             classifier.setSeed(_seed);
-- 
2.43.0


From c68ed09ad38b3849a3d13276ef76af233e9d12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 042/102] fix: start IMApFixedMargin from zero weights when it
 has no solution to start from

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index fdbdf69..619f5aa 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -373,7 +373,7 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
 
             if (initial_solution) {
-                this->w = initial_solution->w.X();
+                this->solution.w = initial_solution->w;
                 this->solution.bias = initial_solution->bias;
                 this->solution.norm = initial_solution->norm;
             } else {
@@ -399,7 +399,7 @@ namespace mltk{
             
             if (!this->solution.w.empty())
                 this->w = this->solution.w.X();
-            else this->w.resize(this->samples->dim(), 0.0);
+            else this->w.assign(this->samples->dim(), 0.0);
             while (time - this->timer.elapsed() > 0) {
                 for (e = 0, i = 0; i < size; ++i) {
                     //shuffling data r = i + rand()%(size-i); j = index[i]; idx = index[i] = index[r]; index[r] = j;
-- 
2.43.0


From 3bad194000a74d7fbab37782b75de120725f932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 043/102] fix: start every cross-validation training with the
 initial step and update counts

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index d6679c6..847852f 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -210,6 +210,7 @@ namespace mltk::validation {
         ValidationReport solution;
         // what one execution learned must not reach the next one or the final validation
         const Solution initial_solution = classifier.getSolution();
+        const int initial_steps = classifier.getSteps(), initial_ctot = classifier.getCtot();
 
         //sample = train_sample;
 
@@ -220,6 +221,8 @@ namespace mltk::validation {
             {
                 if(verbose) std::cout << "\nExecucao " << i + 1 << " / " << qtde << ":\n";
                 classifier.setSolution(initial_solution);
+                classifier.setSteps(initial_steps);
+                classifier.setCtot(initial_ctot);
                 errocross += kfold(samples, classifier, fold, stratified, _seed + i, verbose).error;
             }
             if(verbose >= 1)std::cout << "\n\nErro " << fold << "-Fold Cross Validation: " << errocross/qtde << "%\n";
@@ -245,6 +248,8 @@ namespace mltk::validation {
         valid_pair.train.setClasses(samples.classes());
         classifier.setSamples(mltk::make_data<T>(valid_pair.train));
         classifier.setSolution(initial_solution);
+        classifier.setSteps(initial_steps);
+        classifier.setCtot(initial_ctot);
         classifier.setVerbose(0);
 
         bool isDual = (classifier.getFormulationString() == "Dual");
@@ -324,6 +329,7 @@ namespace mltk::validation {
         ValidationReport solution;
         // a fold must not start from what was learned on another fold's training data, which holds its test data
         const Solution initial_solution = classifier.getSolution();
+        const int initial_steps = classifier.getSteps(), initial_ctot = classifier.getCtot();
 
         //Start cross-validation
         for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
@@ -342,6 +348,8 @@ namespace mltk::validation {
             // Training phase
             classifier.setSamples(_train_sample);
             classifier.setSolution(initial_solution);
+            classifier.setSteps(initial_steps);
+            classifier.setCtot(initial_ctot);
             Solution s = classifier.getSolution();
             bool isDual = classifier.getFormulationString() == "Dual";
             classifier.setSeed(_seed);
-- 
2.43.0


From 32c0e5fa732f9a5bea6ad84a349c337d48d0b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 044/102] fix: let an assigned Point shrink to the size of its
 source

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2d2cba6..5c71933 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -298,7 +298,7 @@ namespace mltk {
 
             // assignment operator from same type
             Point& operator=(Point const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From 3883f0a445c5dc460e25929eb8aef05e9c2c1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 045/102] fix: let SMOTE interpolate between minority samples

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ec274b3..52b0d8c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -179,7 +179,7 @@ namespace mltk{
 
                 // get the k neighbors
                 for(size_t i = 0; (i < k) && (i < distance.size()); i++){
-                    k_neighbors[i] = data[distance[i].first-1];
+                    k_neighbors[i] = Z[distance[i].first-1];
                 }
 
                 // create the artificial points and insert them to the dataset
@@ -189,7 +189,7 @@ namespace mltk{
                     Point< T > s(_z.size(), 0.0, 0);
                     double alpha = distribution(generator);
                     
-                    s = _z + alpha * (_z - _k);
+                    s = _z + alpha * (_k - _z);
                     s.Y() = min_class;
 
                     artificial_data.push_back(mltk::make_point< T >(s));
-- 
2.43.0


From 2e14d7e2402ced8780f16d56ee247a6b5f60f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 046/102] fix: draw a new seed for every unseeded SMOTE call

---
 .../ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 52b0d8c..4ab8390 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -135,8 +135,8 @@ namespace mltk{
 
         Data< T > operator()(Data< T > &data) override {
             std::random_device rd;
-            seed = (seed > 0)?seed:rd();
-            std::mt19937 generator(seed);
+            size_t _seed = (seed > 0)?seed:rd();
+            std::mt19937 generator(_seed);
             std::uniform_real_distribution<double> distribution(0.0,1.0); 
             // number of generated artificial points
             size_t n_apoints = r * data.size();
@@ -196,7 +196,7 @@ namespace mltk{
                 }
             }
 
-            std::shuffle(artificial_data.begin(), artificial_data.end(), std::default_random_engine(seed));
+            std::shuffle(artificial_data.begin(), artificial_data.end(), std::default_random_engine(_seed));
             for (size_t i = 0; i < artificial_data.size(); i++) {
                 data.insertPoint(artificial_data[i]);
             }
-- 
2.43.0


From 9fc3cca7b722978ba33cec892efa93043150b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 047/102] fix: keep equally distant neighbours in the over
 samplers

---
 .../ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 4ab8390..183e526 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -168,11 +168,7 @@ namespace mltk{
                     return d1.second < d2.second;
                 });
 
-                // remove points with equal metrics or duplicate ids
-                distance.erase(std::unique(distance.begin(), distance.end(), [](auto &d1, auto &d2){
-                    return (d1.second == d2.second) || ((d1.first == d2.first));
-                }), distance.end());
-
+                // remove the point itself and its copies
                 distance.erase(std::remove_if(distance.begin(), distance.end(), [](auto &d){
                     return d.second == 0;
                 }), distance.end());
@@ -250,11 +246,7 @@ namespace mltk{
                     return d1.second < d2.second;
                 });
                 
-                // remove points with equal metrics or duplicate ids
-                distance.erase(std::unique(distance.begin(), distance.end(), [](auto &d1, auto &d2){
-                    return (d1.second == d2.second) || ((d1.first == d2.first));
-                }), distance.end());
-
+                // remove the point itself and its copies
                 distance.erase(std::remove_if(distance.begin(), distance.end(), [](auto &d){
                     return d.second == 0;
                 }), distance.end());
-- 
2.43.0


From 5dde4959a2d4a8d2908ccf359fba7532dc244056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 048/102] fix: construct the over samplers with the metric they
 are instantiated with

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 183e526..1e75d6b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -131,7 +131,7 @@ namespace mltk{
 
     public:
         explicit SMOTE(size_t k = 1, double r = 0.1, size_t seed = 0, Callable dist_metric = Callable())
-        : k(k), r(r), seed(seed), OverSampling<T>(dist_metric) {}
+        : k(k), r(r), seed(seed), OverSampling<T, Callable>(dist_metric) {}
 
         Data< T > operator()(Data< T > &data) override {
             std::random_device rd;
@@ -217,7 +217,7 @@ namespace mltk{
         
     public:
         explicit BorderlineSMOTEOne(size_t k = 1, double r = 0.1, size_t m = 1, size_t seed = 0, Callable dist_metric = Callable())
-        : k(k), r(r), m(m), seed(seed), OverSampling<T>(dist_metric) {}
+        : k(k), r(r), m(m), seed(seed), OverSampling<T, Callable>(dist_metric) {}
 
         Data< T > operator()(Data< T > &data) override {
             // Find the majority class
-- 
2.43.0


From ad720499997ea2bf6aae2505d1fd9ac9ca9f76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 049/102] fix: let BorderlineSMOTEOne insert the synthetic
 samples of the minority classes only

---
 .../include/ufjfmltk/core/Sampling.hpp        | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 1e75d6b..c65f4ba 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -224,17 +224,18 @@ namespace mltk{
             auto classes = data.classes();
             auto class_distribution = data.classesDistribution();
             int maj_class = classes[std::max_element(class_distribution.begin(), class_distribution.end()) - class_distribution.begin()];
-            // Initialize the danger subset
-            Data< T > danger_subset;
-            std::set<size_t> danger_ids;
+            // Initialize the danger subset of each minority class
+            std::map<int, Data< T > > danger_subsets;
 
-            // iterate through all the elements from the Z set
+            // iterate through all the elements of the minority classes
             for(auto z = data.begin(); z != data.end(); ++z){
                 std::vector<std::pair<size_t, double> > distance(data.size());
-                std::vector<SamplePointer< T > > M(m);
+                std::vector<SamplePointer< T > > M;
                 size_t id = 0;
                 auto _z = (*z);
 
+                if(_z->Y() == maj_class) continue;
+
                 // compute the euclidean metrics from a point to the rest
                 std::transform(data.begin(), data.end(), distance.begin(), [this, &_z, &id](auto p){
                     id++;
@@ -253,7 +254,7 @@ namespace mltk{
 
                 // get the m neighbors
                 for(size_t i = 0; (i < m) && (i < distance.size()); i++){
-                    M[i] = data[distance[i].first-1];
+                    M.push_back(data[distance[i].first-1]);
                 }
                 
                 // set m' as the number of points on the majority class set on m neighbors
@@ -263,22 +264,21 @@ namespace mltk{
                 
                 // insert the point to the danger subset if m/2 <= m' < m
                 if(m_ >= (m/2) && m_ < m){
-                    danger_ids.insert(_z->Id());
-                    danger_subset.insertPoint(_z);
+                    // a copy, as inserting a point gives it a new id
+                    danger_subsets[int(_z->Y())].insertPoint(*_z);
                 }
             }
 
-            // apply SMOTE algorithm to the danger subset
-            if(danger_subset.size() > 0){
-                SMOTE< T > smote(k, r, seed);
+            for(auto &subset: danger_subsets){
+                Data< T > &danger_subset = subset.second;
+                // apply SMOTE algorithm to the danger subset
+                const size_t danger_size = danger_subset.size();
+                SMOTE< T, Callable > smote(k, r, seed, this->distance_metric);
                 smote(danger_subset);
-            }
-
-            for(auto p = danger_subset.begin(); p != danger_subset.end(); p++){
-                auto _p = (*p);
 
-                if(danger_ids.find(_p->Id()) != danger_ids.end()){
-                    data.insertPoint(_p);
+                // the samples SMOTE appended are the synthetic ones
+                for(size_t i = danger_size; i < danger_subset.size(); i++){
+                    data.insertPoint(danger_subset[i]);
                 }
             }
 
-- 
2.43.0


From f9f38ae402caee4ef6b829ca887a0e665f453926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 050/102] fix: take the maximum of a point from its values,
 whatever their sign

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 5c71933..47eb33a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -542,7 +542,7 @@ namespace mltk {
      */
     template < typename T, typename R >
     T max(const Point<T, R> &p){
-        T _max = std::numeric_limits<T>::min();
+        T _max = std::numeric_limits<T>::lowest();
         for(size_t i = 0; i < p.size(); i++){
             if(p[i] > _max) _max = p[i];
         }
-- 
2.43.0


From 5602abc2fa478fcef2cb67a48e5c7cfefe233f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 051/102] fix: let BaggingClassifier use the seed of its
 learner interface and keep it

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 52ee33f..65f3f13 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -12,7 +12,6 @@ namespace mltk {
         class BaggingClassifier : public Ensemble<T>, public classifier::Classifier<T> {
         private:
             size_t n_estimators = 10;
-            size_t seed = 0;
 
         public:
             BaggingClassifier() = default;
@@ -20,7 +19,8 @@ namespace mltk {
             template<class Estimator>
             explicit BaggingClassifier(const Data<T> &samples, const Estimator &estimator, size_t n_estimators = 10,
                                        size_t seed = 0)
-                    : n_estimators(n_estimators), seed(seed) {
+                    : n_estimators(n_estimators) {
+                this->seed = seed;
                 this->samples = mltk::make_data<T>(samples);
                 this->m_learners.resize(n_estimators);
                 for (size_t i = 0; i < n_estimators; i++) {
@@ -29,13 +29,12 @@ namespace mltk {
             }
 
             bool train() override {
-                seed = (seed == 0) ? std::random_device()() : seed;
+                size_t seed = (this->seed == 0) ? std::random_device()() : this->seed;
 
                 size_t samp_size = this->samples->size() / n_estimators;
                 for (size_t i = 0; i < n_estimators; i++) {
-                    size_t salt = (seed == 0) ? std::random_device()() : i;
-                    this->m_learners[i]->setSeed(seed+salt);
-                    this->m_learners[i]->setSamples(this->samples->sampling(samp_size, true, seed+salt));
+                    this->m_learners[i]->setSeed(seed+i);
+                    this->m_learners[i]->setSamples(this->samples->sampling(samp_size, true, seed+i));
                     this->m_learners[i]->train();
                 }
                 return true;
-- 
2.43.0


From 6bfa8bb23932f85afdc34239374845ec27e67fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 052/102] fix: seed the members of PerceptronCommittee from its
 own seed

---
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index 5e06db4..5e84b93 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -21,6 +21,7 @@ namespace mltk{
                 this->m_learners.resize(n);
                 for (size_t i = 0; i < n; i++) {
                     this->m_learners[i] = std::make_shared<classifier::BalancedPerceptron<T>>();
+                    this->m_learners[i]->setSeed((this->seed == 0) ? 0 : this->seed+i);
                     this->m_learners[i]->setSamples(this->samples);
                     this->m_learners[i]->train();
                 }
-- 
2.43.0


From 3eb1e74dbcd6b5b4778be25bcfaa13352658087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:54 +0000
Subject: [PATCH 053/102] fix: count the predictions of each fold of kfold once
 and average its rates

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 847852f..c4dee36 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -332,7 +332,8 @@ namespace mltk::validation {
         const int initial_steps = classifier.getSteps(), initial_ctot = classifier.getCtot();
 
         //Start cross-validation
-        for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
+        for(size_t j = 0; j < fold; ++j){
+            size_t fp = 0, fn = 0, tp = 0, tn = 0;
             auto _test_sample = folds[j].test;
             auto _train_sample = folds[j].train;
             
@@ -422,6 +423,9 @@ namespace mltk::validation {
         }
         solution.error = (((double)error)/(double)fold);
         solution.accuracy = 100.0 - solution.error;
+        solution.precision /= (double)fold;
+        solution.recall /= (double)fold;
+        solution.tnrate /= (double)fold;
         return solution;
     }
 
-- 
2.43.0


From 6f438ef7e11d7b87e290193dc50a0b27f75686fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:15 +0000
Subject: [PATCH 054/102] fix: read the exponent of a number in atod

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 3a1fa13..2702fc7 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -40,7 +40,7 @@ namespace mltk::utils{
         double atod(const char* s)
         {
             double val, power;
-            int i, sign;
+            int i, sign, exp_sign, exp;
             for (i = 0; isspace(s[i]); i++) /* skip white space */
                 ;
             sign = (s[i] == '-') ? -1 : 1;
@@ -54,7 +54,18 @@ namespace mltk::utils{
                 val = 10.0 * val + (s[i] - '0');
                 power *= 10;
             }
-            return sign * val / power;
+            val = sign * val / power;
+            if (s[i] == 'e' || s[i] == 'E') {
+                i++;
+                exp_sign = (s[i] == '-') ? -1 : 1;
+                if (s[i] == '+' || s[i] == '-')
+                    i++;
+                for (exp = 0; isdigit(s[i]) && exp < 10000; i++)
+                    exp = 10 * exp + (s[i] - '0');
+                if (val != 0)
+                    val = (exp_sign < 0) ? val / std::pow(10.0, exp) : val * std::pow(10.0, exp);
+            }
+            return val;
         }
 
         std::string itos(int n){
-- 
2.43.0


From ce4bf8543beaa51163e4030a1f4ee1468a1f4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 055/102] fix: keep numeric class labels as they are and map
 class names consistently

---
 .../include/ufjfmltk/core/Data.hpp            | 28 ++++---------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 2cf6334..8d2bf87 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1137,34 +1137,18 @@ namespace mltk{
     template<typename T>
     int mltk::Data<T>::process_class(std::string& item) {
         int c = 0;
-        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
 
         item.erase(std::remove_if(item.begin(), item.end(), ::isspace), item.end());
         if(item.empty()) return std::numeric_limits<int>::infinity();
 
-        if(class_name_it == class_names.end()){
+        if(std::find(this->class_names.begin(), this->class_names.end(), item) == class_names.end()){
             this->class_names.push_back(item);
-            auto has_mone = std::find(class_names.begin(), class_names.end(), "-1");
-            if(has_mone == class_names.end()){
-                if(utils::is_number(item)) {
-                    c = std::stoi(item);
-                }else{
-                    auto pos = std::find(class_names.begin(), class_names.end(), item);
-                    c = (int)(pos - this->class_names.begin())+1;
-                }
-            }else{
-                c = 1;
-            }
-            if(item == "-1"){
-                c = -1;
-            }
-
+        }
+        if(utils::is_number(item)) {
+            c = std::stoi(item);
         }else{
-            if(utils::is_number(item)) {
-                c = std::stoi(item);
-            }else{
-                c = (int)(class_name_it - this->class_names.begin())+1;
-            }
+            auto pos = std::find(class_names.begin(), class_names.end(), item);
+            c = (int)(pos - this->class_names.begin())+1;
         }
         auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
         if(class_it == this->m_classes.end()){
-- 
2.43.0


From ff8fa0a7f70173a7f288a54a865d4e5646c79f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 056/102] fix: read a dataset file once and report a file that
 cannot be read or parsed to its end

---
 .../include/ufjfmltk/core/Data.hpp            | 116 +++++++++---------
 1 file changed, 58 insertions(+), 58 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 8d2bf87..98272d7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -127,6 +127,13 @@ namespace mltk{
          * \return int
          */
         Type identifyFileType (std::string file);
+        /**
+         * \brief Read the contents of a file, so that every pass over them sees the same rows.
+         * \param path Path to the file.
+         * \param content Stream to receive the contents.
+         * \return true if the file was opened, an exception is thrown if it couldn't be read to its end.
+         */
+        bool read_file (const std::string& path, std::stringstream& content);
         /**
          * \brief Load a dataset from a csv file.
          * \param path Path to csv file.
@@ -627,29 +634,7 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::load(const std::string& file){
-        Type t = identifyFileType(file);
-        this->dataset_name = discover_dataset_name(file);
-        this->cdist_computed = true;
-
-        this->atEnd = false;
-        
-        switch (t) {
-            case TYPE_ARFF:
-                this->atEnd = true;
-                return load_arff(file);
-            case TYPE_CSV:
-                return load_csv(file);
-            case TYPE_DATA:
-                return load_data(file);
-            case TYPE_TXT:
-                return load_txt(file);
-            default:
-                std::cerr << "Invalid file type." << std::endl;
-                return false;
-        }
-        fnames.assign(this->dim(), 0);
-        std::iota(fnames.begin(), fnames.end(), 1);
-        return true;
+        return load(file, identifyFileType(file) == TYPE_ARFF);
     }
 
     template<typename T>
@@ -660,27 +645,50 @@ namespace mltk{
 
         this->atEnd = _atEnd;
 
-        switch (t) {
-            case TYPE_ARFF:
-                return load_arff(file);
-            case TYPE_CSV:
-                return load_csv(file);
-            case TYPE_DATA:
-                return load_data(file);
-            case TYPE_TXT:
-                return load_txt(file);
-            default:
-                std::cerr << "Invalid file type." << std::endl;
-                return false;
+        try {
+            switch (t) {
+                case TYPE_ARFF:
+                    return load_arff(file);
+                case TYPE_CSV:
+                    return load_csv(file);
+                case TYPE_DATA:
+                    return load_data(file);
+                case TYPE_TXT:
+                    return load_txt(file);
+                default:
+                    std::cerr << "Invalid file type." << std::endl;
+                    return false;
+            }
+        } catch(const std::exception& e) {
+            // the file couldn't be read or parsed to its end
+            std::cerr << "Error loading " << file << ": " << e.what() << std::endl;
+            clear();
+            return false;
         }
-        fnames.assign(this->dim(), 0);
-        std::iota(fnames.begin(), fnames.end(), 1);
+    }
+
+    template<typename T>
+    bool mltk::Data< T >::read_file(const std::string& path, std::stringstream& content){
+        std::ifstream input(path.c_str());
+
+        if(!input){
+            std::cout << "File could not be opened!" << std::endl;
+            return false;
+        }
+
+        std::vector<char> buffer(65536);
+        input.exceptions(std::ios::badbit);
+        content.exceptions(std::ios::badbit);
+        do{
+            input.read(buffer.data(), buffer.size());
+            content.write(buffer.data(), input.gcount());
+        }while(input);
         return true;
     }
 
     template<typename T>
     bool mltk::Data< T >::load_csv(const std::string& path){
-        std::ifstream input(path.c_str());
+        std::stringstream input;
         std::stringstream ss;
         std::string str, item;
         int _dim, ldim, _size, ssize;
@@ -690,10 +698,8 @@ namespace mltk{
         flag = false;
         _dim = ldim = _size = 0;
 
-        if(!input){
-            std::cout << "File could not be opened!" << std::endl;
-            return false;
-        }
+        if(!read_file(path, input)) return false;
+        ss.exceptions(std::ios::badbit);
 
         //Verify if the class is at the begining or at the end and error check
         while(std::getline(input, str)){
@@ -803,17 +809,16 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::load_data(const std::string& path){
-        std::ifstream input(path.c_str());
+        std::stringstream input;
         std::string str, item, buffer;
         std::stringstream ss, ss1;
         int _dim, ldim, _size;
         double c;
         bool is_feature, type_detect = false;
 
-        if(!input){
-            std::cout << "File could not be opened!" << std::endl;
-            return false;
-        }
+        if(!read_file(path, input)) return false;
+        ss.exceptions(std::ios::badbit);
+        ss1.exceptions(std::ios::badbit);
         _dim = ldim = _size = c = 0;
         //get dimension of the points and do error check
         while(std::getline(input, str)){
@@ -925,23 +930,20 @@ namespace mltk{
             type = "MultiClassification";
         }
 
-        input.close();
         is_empty = false;
         return true;
     }
 
     template<typename T>
     bool mltk::Data< T >::load_arff(const std::string& path){
-        std::ifstream input(path.c_str());
+        std::stringstream input;
         std::istringstream ss;
         std::string str, item;
         int _dim, ldim, _size, c;
         bool atBegin, flag, cond;
 
-        if(!input){
-            std::cout << "File could not be opened! \nError: " << std::strerror(errno) << std::endl;
-            return false;
-        }
+        if(!read_file(path, input)) return false;
+        ss.exceptions(std::ios::badbit);
 
         _dim = ldim = _size = c = 0;
         atBegin = flag = cond = false;
@@ -1046,15 +1048,13 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::load_txt(const std::string& path){
-        std::ifstream input(path.c_str());
+        std::stringstream input;
         std::istringstream ss;
         std::string str, item;
         int n, _dim = 0, n1, d, _size;
 
-        if(!input){
-            std::cout << "File could not be opened!" << std::endl;
-            return false;
-        }
+        if(!read_file(path, input)) return false;
+        ss.exceptions(std::ios::badbit);
 
         n1 = d = _size = 0;
 
-- 
2.43.0


From 9ea8f61ca9a7cbafb9ba425a282e4cfe5c91f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 057/102] fix: tell the type of a dataset file only from a name
 that has an extension

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 98272d7..a74c9db 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -599,6 +599,8 @@ namespace mltk{
     Type mltk::Data< T >::identifyFileType(std::string file){
         size_t l , k, i, j, tsize = types.size();
 
+        if(file.find('.') == std::string::npos) return Type::TYPE_INVALID;
+
         for(k = file.size() - 1; (k >= 0 && file[k] != '.') ; k--){
             for(i = 0; i < tsize; ++i){
                 if(file[k] == types[i][types[i].size()-1]){
@@ -2114,6 +2116,7 @@ namespace mltk{
     template<typename T>
     std::string Data<T>::discover_dataset_name(const std::string &path) {
         auto tokens = mltk::utils::tokenize(path, '/');
+        if(tokens.empty()) return std::string();
         tokens = mltk::utils::tokenize(tokens.back(), '.');
         return (tokens.empty())?std::string():tokens[0];
     }
-- 
2.43.0


From 92b24e7555cbc67650efc915a86c2e5b550a6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 058/102] fix: keep the columns of a .csv row inside the sample

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a74c9db..152fabd 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -739,7 +739,7 @@ namespace mltk{
                 _dim++;
             }
 
-            if(ldim != _dim && ldim != 0){
+            if(ldim != _dim && _size != 0){
                 std::cerr << "All the samples must have the same dimension!" << std::endl;
                 return false;
             }
@@ -749,6 +749,11 @@ namespace mltk{
             ss.clear();
         }
 
+        if(_dim < 0){
+            std::cerr << "The samples have no columns!" << std::endl;
+            return false;
+        }
+
         input.clear();
         input.seekg(0, std::ios::beg);
 
@@ -778,8 +783,9 @@ namespace mltk{
 
             //Read features from line
             while(std::getline(ss, item, deli)){
+                // the last column is the class, also in a row that ends with a delimiter
                 if(atEnd)
-                    cond = !ss.eof();
+                    cond = _dim + 1 != this->m_dim;
                 else
                     cond = _dim != -1;
 
-- 
2.43.0


From edf82281ee2aa1f82c3f14d0cb90db944bf1824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 059/102] fix: accept only .data rows with one label and one
 value per feature, and keep regression labels

---
 .../include/ufjfmltk/core/Data.hpp            | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 152fabd..7d18017 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -836,11 +836,19 @@ namespace mltk{
             ss.str(str);
             ss.clear();
 
+            int labels = 0;
+            bool valid = true;
             while(std::getline(ss, item, ' ')){
-                if(item == "") continue;
                 item = mltk::utils::trim_copy(item);
+                if(item == "") continue;
                 const char * pch = std::strchr(item.c_str(), ':');
                 _dim++;
+                // an item is either the label or a feature's name and value
+                if(!pch){
+                    labels++;
+                }else if(pch[1] == '\0' || std::strchr(pch + 1, ':')){
+                    valid = false;
+                }
                 /*if(_size > 0 && _dim < ldim && pch == nullptr){
                     std::cerr << "Error (line: " << _size << ", _dim: " << _dim << "): file isn't in the .data format." << std::endl;
                     return false;
@@ -849,11 +857,9 @@ namespace mltk{
                 ss1.str(item);
                 ss1.clear();
                 while(_size > 0 && std::getline(ss1, item, ':')) {
-                    if(_dim == ldim && !type_detect){
+                    if(_dim == ldim && !pch && !type_detect){
                         if(strchr(item.c_str(), '.')){
                             this->type = "Regression";
-                        }else{
-                            this->type = "Classification";
                         }
                         type_detect = true;
                     }else if(_dim < ldim && !utils::is_number(item)){
@@ -861,7 +867,11 @@ namespace mltk{
                     }
                 }
             }
-            if(ldim != _dim && ldim != 0){
+            if(labels != 1 || !valid){
+                std::cerr << "Error (line: " << _size << "): file isn't in the .data format." << std::endl;
+                return false;
+            }
+            if(ldim != _dim && _size != 0){
                 std::cerr << "Error (line: " << _size << "): all the samples must have the same dimension! (_dim: " << _dim << ", last_dim: " << ldim << ")" << std::endl;
                 return false;
             }
@@ -900,6 +910,7 @@ namespace mltk{
             _dim = 0;
             while(std::getline(ss, item, ' ')){
                 item = mltk::utils::trim_copy(item);
+                if(item == "") continue;
                 const char * pch = std::strchr(item.c_str(), ':');
                 if(!pch){
                     if(this->isClassification()) {
@@ -921,8 +932,9 @@ namespace mltk{
                             is_feature = true;
                         }else{
                             if(utils::is_number(item)){
-                                new_point->X()[_dim++] = utils::atod(item.c_str());
+                                new_point->X()[_dim] = utils::atod(item.c_str());
                             }
+                            _dim++;
                             is_feature = false;
                         }
                     }
@@ -932,10 +944,8 @@ namespace mltk{
             m_points[_size - 1]->Id() = _size;
         }
 
-        if(m_classes.size() == 2){
-            type = "BinClassification";
-        }else{
-            type = "MultiClassification";
+        if(this->isClassification()){
+            type = (m_classes.size() == 2)?"BinClassification":"MultiClassification";
         }
 
         is_empty = false;
-- 
2.43.0


From 1ccda2cef1af51794223e85ce22b64fbdf86c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 060/102] fix: read the class, the features and the regression
 label of an .arff row from their columns

---
 .../include/ufjfmltk/core/Data.hpp            | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 7d18017..50bc134 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -957,7 +957,8 @@ namespace mltk{
         std::stringstream input;
         std::istringstream ss;
         std::string str, item;
-        int _dim, ldim, _size, c;
+        int _dim, ldim, _size;
+        double c;
         bool atBegin, flag, cond;
 
         if(!read_file(path, input)) return false;
@@ -978,7 +979,6 @@ namespace mltk{
 
                 if(!utils::is_number(item) && (found_class != this->class_names.end())){
                     std::clog << "Warning: point[" << _size << "] " << _dim + 1 << " feature is not a number. (" << item << ")" << std::endl;
-                    _dim--;
                 }
                 if(this->isClassification()) {
                     if (_dim == 0 && !flag) {
@@ -996,7 +996,7 @@ namespace mltk{
                 _dim++;
             }
 
-            if(ldim != _dim && ldim != 0){
+            if(ldim != _dim && _size != 0){
                 std::cerr << "All the samples must have the same dimension!" << std::endl;
                 return false;
             }
@@ -1009,7 +1009,10 @@ namespace mltk{
         input.seekg(0, std::ios::beg);
 
         //initialize _dim and _size
-        _dim--;
+        if(_size > 0 && --_dim < 0){
+            std::cerr << "The samples have no columns!" << std::endl;
+            return false;
+        }
         this->m_dim = _dim;
         this->m_size = _size;
 
@@ -1036,18 +1039,21 @@ namespace mltk{
 
             //Read features from line
             while(std::getline(ss, item, ',')){
+                // the class is the last or the first column
                 if(atEnd)
-                    cond = (!ss.eof() && atEnd);
+                    cond = _dim + 1 != this->m_dim;
                 else
-                    cond = _dim != 0;
+                    cond = _dim != -1;
 
                 if(cond){
                     if(utils::is_number(item)){
-                        new_point->X()[_dim + 1] = utils::atod(item.c_str());
+                        new_point->X()[(!atEnd) ? _dim : _dim + 1] = utils::atod(item.c_str());
                     }
                 }else{
                     if(this->isClassification()){
                         c = process_class(item);
+                    }else{
+                        c = utils::atod(item.c_str());
                     }
                     new_point->Y() = c;
                 }
-- 
2.43.0


From bcb591f8d78b07588101c88066da2e88e6b5a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:25 +0000
Subject: [PATCH 061/102] fix: discard the dataset a Data object holds before
 another one is loaded into it

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 50bc134..9924f15 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -134,6 +134,10 @@ namespace mltk{
          * \return true if the file was opened, an exception is thrown if it couldn't be read to its end.
          */
         bool read_file (const std::string& path, std::stringstream& content);
+        /**
+         * \brief Discard the dataset a used object holds, before another one is loaded into it.
+         */
+        void discard_samples ();
         /**
          * \brief Load a dataset from a csv file.
          * \param path Path to csv file.
@@ -688,6 +692,13 @@ namespace mltk{
         return true;
     }
 
+    template<typename T>
+    void mltk::Data< T >::discard_samples(){
+        if(is_empty) return;
+        clear();
+        cdist_computed = true;
+    }
+
     template<typename T>
     bool mltk::Data< T >::load_csv(const std::string& path){
         std::stringstream input;
@@ -758,6 +769,7 @@ namespace mltk{
         input.seekg(0, std::ios::beg);
 
         //initialize _dim and _size
+        discard_samples();
         this->m_dim = _dim;
         this->m_size = _size;
 
@@ -884,6 +896,7 @@ namespace mltk{
         input.seekg(0, std::ios::beg);
 
         //initialize _dim and _size
+        discard_samples();
         this->m_dim = _dim;
         this->m_size = _size;
 
@@ -1013,6 +1026,7 @@ namespace mltk{
             std::cerr << "The samples have no columns!" << std::endl;
             return false;
         }
+        discard_samples();
         this->m_dim = _dim;
         this->m_size = _size;
 
@@ -1108,6 +1122,7 @@ namespace mltk{
         }
 
         //Initialize _size and _dim
+        discard_samples();
         this->m_size = _size;
         this->m_dim = _dim;
 
@@ -1738,6 +1753,7 @@ namespace mltk{
         index.clear();
         m_classes.clear();
         class_names.clear();
+        class_distribution.clear();
         m_size = 0;
         m_dim = 0;
         normalized = false;
-- 
2.43.0


From 88bd29608da29caae39e65332afb8beb1f4b407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:25 +0000
Subject: [PATCH 062/102] fix: report a dataset that could not be written
 completely

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9924f15..a199f02 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1269,6 +1269,9 @@ namespace mltk{
         }
 
         outstream.close();
+        if(!outstream){
+            std::cerr << "Can't write in file." << std::endl;
+        }
     }
 
     template<typename T>
-- 
2.43.0


From 4553ef5f4d5654afde32cdca9f800aad05a4591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 063/102] fix: find the separator of a .data item also behind a
 zero byte

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a199f02..5a55176 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -853,12 +853,12 @@ namespace mltk{
             while(std::getline(ss, item, ' ')){
                 item = mltk::utils::trim_copy(item);
                 if(item == "") continue;
-                const char * pch = std::strchr(item.c_str(), ':');
+                const auto colon = item.find(':');
                 _dim++;
                 // an item is either the label or a feature's name and value
-                if(!pch){
+                if(colon == std::string::npos){
                     labels++;
-                }else if(pch[1] == '\0' || std::strchr(pch + 1, ':')){
+                }else if(colon + 1 == item.size() || item.find(':', colon + 1) != std::string::npos){
                     valid = false;
                 }
                 /*if(_size > 0 && _dim < ldim && pch == nullptr){
@@ -869,7 +869,7 @@ namespace mltk{
                 ss1.str(item);
                 ss1.clear();
                 while(_size > 0 && std::getline(ss1, item, ':')) {
-                    if(_dim == ldim && !pch && !type_detect){
+                    if(_dim == ldim && colon == std::string::npos && !type_detect){
                         if(strchr(item.c_str(), '.')){
                             this->type = "Regression";
                         }
@@ -924,8 +924,7 @@ namespace mltk{
             while(std::getline(ss, item, ' ')){
                 item = mltk::utils::trim_copy(item);
                 if(item == "") continue;
-                const char * pch = std::strchr(item.c_str(), ':');
-                if(!pch){
+                if(item.find(':') == std::string::npos){
                     if(this->isClassification()) {
                         c = process_class(item);
                     }else{
-- 
2.43.0


From 46cb2eee227df3895060b17e81e701213512ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 064/102] fix: removePoint removes only a point it finds and
 keeps unlabelled datasets consistent

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp  | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5a55176..c5c5ed1 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1208,6 +1208,8 @@ namespace mltk{
         if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
         //Ids bound verification
         if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
+        auto point = std::find_if(m_points.begin(), m_points.end(), [&pid](const auto& p){ return p->Id() == size_t(pid); });
+        if(point == m_points.end()) return false;
         int y;
         if(!index.empty()){
             index.resize(m_size);
@@ -1220,16 +1222,11 @@ namespace mltk{
         }
 
         //Find the point by its id and erase it
-        for(i = 0; i < m_size; i++){
-            if(m_points[i]->Id() == pid){
-                y = m_points[i]->Y();
-                m_points.erase(m_points.begin() + i);
-                break;
-            }
-        }
+        y = (*point)->Y();
+        m_points.erase(point);
         m_size--;
-        auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
-        class_distribution[pos]--;
+        size_t pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
+        if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
     }
 
-- 
2.43.0


From e5d1e0138d47d2a8bc5c18bf748424612d2e569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:21 +0000
Subject: [PATCH 065/102] fix: report gnuplot commands that could not be sent,
 without dying of SIGPIPE

---
 subprojects/ufjfmltk-visual/src/gnuplot_i.cpp | 61 ++++++++++++++++++-
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
index ef99f2b..9a9c037 100755
--- a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
+++ b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
@@ -30,6 +30,52 @@
 
 #include "ufjfmltk/visual/gnuplot_i.hpp"
 #include <stdio.h>
+#if defined(unix) || defined(__unix) || defined(__unix__) || defined(__APPLE__)
+#include <errno.h>
+#include <pthread.h>
+#include <signal.h>
+#endif
+
+//------------------------------------------------------------------------------
+//
+// Writing to a gnuplot process that has died raises SIGPIPE, which by default
+// ends the whole program. While a guard is alive the signal is held back on the
+// calling thread; one raised meanwhile is dropped and the write just fails.
+//
+namespace {
+class SigpipeGuard {
+#if defined(unix) || defined(__unix) || defined(__unix__) || defined(__APPLE__)
+    sigset_t pipe_set, old_mask;
+    bool was_pending;
+
+public:
+    SigpipeGuard() {
+        sigset_t pending;
+        sigemptyset(&pipe_set);
+        sigaddset(&pipe_set, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &pipe_set, &old_mask);
+        sigpending(&pending);
+        was_pending = sigismember(&pending, SIGPIPE) == 1;
+    }
+
+    ~SigpipeGuard() {
+        const int saved_errno = errno;
+        sigset_t pending;
+        int sig;
+        sigpending(&pending);
+        if (!was_pending && sigismember(&pending, SIGPIPE) == 1)
+            sigwait(&pipe_set, &sig);
+        pthread_sigmask(SIG_SETMASK, &old_mask, NULL);
+        errno = saved_errno;
+    }
+#else
+public:
+    SigpipeGuard() {}
+#endif
+    SigpipeGuard(const SigpipeGuard&) = delete;
+    SigpipeGuard& operator=(const SigpipeGuard&) = delete;
+};
+}
 
 //------------------------------------------------------------------------------
 //
@@ -892,7 +938,7 @@ Gnuplot& Gnuplot::cmd(const std::string &cmdstr)
 {
     if( !(valid) )
     {
-        return *this;
+        throw GnuplotException("The gnuplot session is not valid");
     }
 
 
@@ -901,14 +947,23 @@ Gnuplot& Gnuplot::cmd(const std::string &cmdstr)
     // The function begins copying from the address specified (str) until it
     // reaches the terminating null character ('\0'). This final
     // null-character is not copied to the stream.
-    fputs( (cmdstr+"\n").c_str(), gnucmd );
+    const std::string line = cmdstr + "\n";
+    SigpipeGuard guard;
+    bool sent = fputs( line.c_str(), gnucmd ) != EOF;
 
     // int fflush ( FILE * stream );
     // If the given stream was open for writing and the last i/o operation was
     // an output operation, any unwritten data in the output buffer is written
     // to the file.  If the argument is a null pointer, all open files are
     // flushed.  The stream remains open after this call.
-    fflush(gnucmd);
+    sent = fflush(gnucmd) == 0 && sent;
+
+    // nothing sent after a command that got lost or was cut short makes sense
+    if( !sent )
+    {
+        valid = false;
+        throw GnuplotException("Couldn't send the command to gnuplot");
+    }
 
 
     if( cmdstr.find("replot") != std::string::npos )
-- 
2.43.0


From 2f6552ce06745056edb91908a53a8bba125401b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:21 +0000
Subject: [PATCH 066/102] fix: closing a gnuplot session never ends the program
 and no session is left behind

---
 subprojects/ufjfmltk-visual/src/gnuplot_i.cpp | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
index 9a9c037..a4e41da 100755
--- a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
+++ b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
@@ -107,8 +107,8 @@ Gnuplot::Gnuplot(const std::string &style)
         :gnucmd(NULL) ,valid(false) ,two_dim(false) ,nplots(0)
 
 {
-    init();
     set_style(style);
+    init();
 }
 
 //------------------------------------------------------------------------------
@@ -120,11 +120,8 @@ Gnuplot::Gnuplot(const std::vector<double> &x,
                  const std::string &style,
                  const std::string &labelx,
                  const std::string &labely)
-        :gnucmd(NULL) ,valid(false) ,two_dim(false) ,nplots(0)
+        :Gnuplot(style)
 {
-    init();
-
-    set_style(style);
     set_xlabel(labelx);
     set_ylabel(labely);
 
@@ -142,11 +139,8 @@ Gnuplot::Gnuplot(const std::vector<double> &x,
                  const std::string &style,
                  const std::string &labelx,
                  const std::string &labely)
-        :gnucmd(NULL) ,valid(false) ,two_dim(false) ,nplots(0)
+        :Gnuplot(style)
 {
-    init();
-
-    set_style(style);
     set_xlabel(labelx);
     set_ylabel(labely);
 
@@ -166,11 +160,8 @@ Gnuplot::Gnuplot(const std::vector<double> &x,
                  const std::string &labelx,
                  const std::string &labely,
                  const std::string &labelz)
-        :gnucmd(NULL) ,valid(false) ,two_dim(false) ,nplots(0)
+        :Gnuplot(style)
 {
-    init();
-
-    set_style(style);
     set_xlabel(labelx);
     set_ylabel(labely);
     set_zlabel(labelz);
@@ -245,9 +236,12 @@ Gnuplot::~Gnuplot()
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__TOS_WIN__)
     //   if (_pclose(gnucmd) == -1)
 #elif defined(unix) || defined(__unix) || defined(__unix__) || defined(__APPLE__)
-    if (pclose(gnucmd) == -1)
+    // nothing can be done about a failure here: throwing from the destructor
+    // would end the program
+    SigpipeGuard guard;
+    if (gnucmd)
+        pclose(gnucmd);
 #endif
-        throw GnuplotException("Problem closing communication to gnuplot");
 }
 
 
@@ -1044,7 +1038,21 @@ void Gnuplot::init()
     smooth = "";
 
     //set terminal type
-    showonscreen();
+    try
+    {
+        showonscreen();
+    }
+    catch (...)
+    {
+        // no destructor will run for this session
+        SigpipeGuard guard;
+        valid = false;
+#if !( defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__TOS_WIN__) )
+        pclose(gnucmd);
+#endif
+        gnucmd = NULL;
+        throw;
+    }
 
     return;
 }
-- 
2.43.0


From 248014052e70a834c92ee204a7ca22514315b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 067/102] fix: report gnuplot data files that could not be
 created or written completely

---
 .../include/ufjfmltk/visual/gnuplot_i.hpp     | 19 ++++++++------
 subprojects/ufjfmltk-visual/src/gnuplot_i.cpp | 25 ++++++++++++++++---
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp
index f5154d7..e5b28d2 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp
@@ -116,6 +116,13 @@ private:
     /// \return <-- the name of the tempfile
     // ---------------------------------------------------
     std::string    create_tmpfile(std::ofstream &tmp);
+    // ---------------------------------------------------
+    ///\brief closes a tmpfile, throws if its data could not all be written
+    ///
+    /// \param tmp  --> the tempfile
+    /// \param name --> the name of the tempfile
+    // ---------------------------------------------------
+    void           close_tmpfile(std::ofstream &tmp, const std::string &name);
 
     //----------------------------------------------------------------------------------
     ///\brief gnuplot path found?
@@ -495,8 +502,7 @@ public:
         for (unsigned int i = 0; i < x.size(); i++)
             tmp << x[i] << std::endl;
 
-        tmp.flush();
-        tmp.close();
+        close_tmpfile(tmp, name);
 
 
         plotfile_x(name, 1, title);
@@ -539,8 +545,7 @@ public:
         for (unsigned int i = 0; i < x.size(); i++)
             tmp << x[i] << " " << y[i] << std::endl;
 
-        tmp.flush();
-        tmp.close();
+        close_tmpfile(tmp, name);
 
 
         plotfile_xy(name, 1, 2, title);
@@ -585,8 +590,7 @@ public:
         for (unsigned int i = 0; i < x.size(); i++)
             tmp << x[i] << " " << y[i] << " " << dy[i] << std::endl;
 
-        tmp.flush();
-        tmp.close();
+        close_tmpfile(tmp, name);
 
 
         // Do the actual plot
@@ -633,8 +637,7 @@ public:
         for (unsigned int i = 0; i < x.size(); i++)
             tmp << x[i] << " " << y[i] << " " << z[i] <<std::endl;
 
-        tmp.flush();
-        tmp.close();
+        close_tmpfile(tmp, name);
 
 
         plotfile_xyz(name, 1, 2, 3, title);
diff --git a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
index a4e41da..3ced8dc 100755
--- a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
+++ b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
@@ -896,8 +896,7 @@ Gnuplot& Gnuplot::plot_image(const unsigned char * ucPicBuf,
         }
     }
 
-    tmp.flush();
-    tmp.close();
+    close_tmpfile(tmp, name);
 
 
     std::ostringstream cmdstr;
@@ -1232,7 +1231,8 @@ std::string Gnuplot::create_tmpfile(std::ofstream &tmp)
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__TOS_WIN__)
     if (_mktemp(name) == NULL)
 #elif defined(unix) || defined(__unix) || defined(__unix__) || defined(__APPLE__)
-    if (mkstemp(name) == -1)
+    const int fd = mkstemp(name);
+    if (fd == -1)
 #endif
     {
         std::ostringstream except;
@@ -1241,9 +1241,13 @@ std::string Gnuplot::create_tmpfile(std::ofstream &tmp)
         return "";
     }
 
+#if defined(unix) || defined(__unix) || defined(__unix__) || defined(__APPLE__)
+    close(fd);
+#endif
     tmp.open(name);
-    if (tmp.bad())
+    if (!tmp.is_open())
     {
+        remove(name);
         std::ostringstream except;
         except << "Cannot create temporary file \"" << name << "\"";
         throw GnuplotException(except.str());
@@ -1259,6 +1263,19 @@ std::string Gnuplot::create_tmpfile(std::ofstream &tmp)
     return name;
 }
 
+//------------------------------------------------------------------------------
+//
+// Closes a temporary file
+//
+void Gnuplot::close_tmpfile(std::ofstream &tmp, const std::string &name)
+{
+    tmp.close();
+    if (tmp.fail())
+    {
+        throw GnuplotException("Cannot write temporary file \"" + name + "\"");
+    }
+}
+
 void Gnuplot::remove_tmpfiles(){
     if ((tmpfile_list).size() > 0)
     {
-- 
2.43.0


From 3f9e5edf71fc8363202e48f8c8a49a6d9fa836b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 068/102] fix: start gnuplot from directories whose name the
 shell would split

---
 subprojects/ufjfmltk-visual/src/gnuplot_i.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
index 3ced8dc..fe58176 100755
--- a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
+++ b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
@@ -1010,7 +1010,16 @@ void Gnuplot::init()
     // open pipe
     //
     std::string tmp = Gnuplot::m_sGNUPlotPath + "/" +
-                      Gnuplot::m_sGNUPlotFileName + " -persist";
+                      Gnuplot::m_sGNUPlotFileName;
+
+#if defined(unix) || defined(__unix) || defined(__unix__) || defined(__APPLE__)
+    // quote the path for the shell: ' becomes '\''
+    std::string quoted = "'";
+    for (std::string::const_iterator c = tmp.begin(); c != tmp.end(); ++c)
+        quoted += (*c == '\'') ? std::string("'\\''") : std::string(1, *c);
+    tmp = quoted + "'";
+#endif
+    tmp += " -persist";
 
     // FILE *popen(const char *command, const char *mode);
     // The popen() function shall execute the command specified by the string
-- 
2.43.0


From eef544e9d8fda2ac6825d90fe51cf4f9dab074e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 069/102] fix: a visualization session owns only the folder it
 created itself

---
 .../include/ufjfmltk/visual/Visualization.hpp | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index aa66447..075111b 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -40,7 +40,7 @@ namespace mltk::visualize{
         // Attributes
     private :
         /// Sample to be visualized.
-        Data< T > *samples;
+        Data< T > *samples{nullptr};
         std::map<std::string, std::string> configs;
         Gnuplot *g{nullptr};
         std::string plot_folder;
@@ -345,24 +345,21 @@ namespace mltk::visualize{
 
     template<typename T>
     void Visualization<T>::create_plotfolder() {
+        std::error_code ec;
+        bool created;
+
+        // a folder that already exists, or that somebody else creates first, is not ours: try the next name
         do{
             this->plot_folder = PLOT_FOLDER+std::to_string(n_plots)+"/";
-            if(std::find(plot_folders.begin(), plot_folders.end(), this->plot_folder) == plot_folders.end()) {
-                plot_folders.push_back(this->plot_folder);
-            }
             n_plots++;
-        }while(fs::exists(this->plot_folder));
-        try {
-            fs::create_directory(this->plot_folder);
-        }
-        catch (fs::filesystem_error const& ex) {
-            std::cout
-                << "what():  " << ex.what() << '\n'
-                << "path1(): " << ex.path1() << '\n'
-                << "path2(): " << ex.path2() << '\n'
-                << "code().value():    " << ex.code().value() << '\n'
-                << "code().message():  " << ex.code().message() << '\n'
-                << "code().category(): " << ex.code().category().name() << '\n';
+            created = fs::create_directory(this->plot_folder, ec);
+        }while(!created && (!ec || ec == std::errc::file_exists));
+
+        if(created) {
+            plot_folders.push_back(this->plot_folder);
+        }else{
+            std::cerr << "Error creating the folder " << this->plot_folder << ": " << ec.message() << std::endl;
+            this->plot_folder.clear();
         }
     }
 
@@ -384,6 +381,9 @@ namespace mltk::visualize{
         if(plot_folder.empty()) {
             plot_folder = this->plot_folder;
         }
+        if(plot_folder.empty()) {
+            return file_names;
+        }
 
         if(samples->isClassification()) {
             std::vector<std::string> class_names = samples->classesNames();
@@ -858,6 +858,10 @@ namespace mltk::visualize{
         auto timestamp = mltk::utils::timestamp();
         timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'), timestamp.end());
 
+        if(this->plot_folder.empty()) {
+            std::cerr << "There is no folder for the data files." << std::endl;
+            return "";
+        }
         learner.setSamples(data_copy);
         if(!is_trained) learner.train();
 
-- 
2.43.0


From 459c97ad5b562953d36aa98e1528502e532df1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 070/102] fix: ending a visualization session reports what
 cannot be removed or renamed and never throws

---
 .../include/ufjfmltk/visual/Visualization.hpp | 70 +++++++------------
 1 file changed, 24 insertions(+), 46 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 075111b..9a3127a 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -504,40 +504,37 @@ namespace mltk::visualize{
         if(keep_temp_files) {
             auto fname = this->plot_folder;
             auto timestamp = mltk::utils::timestamp();
-            timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'));
+            timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'), timestamp.end());
             fname.erase(std::remove(fname.begin(), fname.end(), '/'), fname.end());
-            try {
-                fs::rename(fname, fname + "_saved_" + timestamp);
+            if(fname.empty()) return;
+
+            std::string saved = fname + "_saved_" + timestamp;
+            std::error_code ec;
+            for(size_t i = 1; fs::exists(saved, ec); i++) {
+                saved = fname + "_saved_" + timestamp + "_" + std::to_string(i);
             }
-            catch (fs::filesystem_error const& ex) {
-                std::cout
-                    << "what():  " << ex.what() << '\n'
-                    << "path1(): " << ex.path1() << '\n'
-                    << "path2(): " << ex.path2() << '\n'
-                    << "code().value():    " << ex.code().value() << '\n'
-                    << "code().message():  " << ex.code().message() << '\n'
-                    << "code().category(): " << ex.code().category().name() << '\n';
+            fs::rename(fname, saved, ec);
+            if(ec) {
+                std::cerr << "Error renaming the folder " << fname << " to " << saved << ": " << ec.message() << std::endl;
             }
-
+            plot_folders.erase(std::remove(plot_folders.begin(), plot_folders.end(), this->plot_folder), plot_folders.end());
+            this->plot_folder.clear();
+            temp_fnames.clear();
             return;
         }
-        std::string path;
-        std::vector<std::string> temps;
-
-        temps = getTempFilesNames();
 
-        for(const std::string& file : temps){
-            std::string _path = plot_folder + file;
-            if(fs::exists(_path)) fs::remove_all(_path);
-        }
-        if(fs::exists(plot_folder)) fs::remove_all(plot_folder);
-        if(!temp_fnames.empty()) {
-            for(const auto& file: temp_fnames) {
-                if(fs::exists(file)) {
-                    fs::remove(file);
-                }
+        // a folder that is gone is forgotten, since the name may be somebody else's from then on
+        for(auto folder = plot_folders.begin(); folder != plot_folders.end();) {
+            std::error_code ec;
+            fs::remove_all(*folder, ec);
+            if(ec) {
+                std::cerr << "Error removing the folder " << *folder << ": " << ec.message() << std::endl;
+                ++folder;
+            }else{
+                folder = plot_folders.erase(folder);
             }
         }
+        this->plot_folder.clear();
         temp_fnames.clear();
     }
 
@@ -929,9 +926,7 @@ namespace mltk::visualize{
     template<typename T>
     void Visualization< T >::setSample(Data<T>& sample) {
         this->samples = &sample;
-        if(fs::exists(plot_folder)) {
-            removeTempFiles();
-        }
+        removeTempFiles();
         create_plotfolder();
         createTempFiles();
     }
@@ -1029,23 +1024,6 @@ namespace mltk::visualize{
         delete g;
         g = nullptr;
         removeTempFiles();
-        for(auto& pfolder: plot_folders) {
-            try {
-                if (fs::exists(pfolder)) {
-                    fs::remove_all(pfolder);
-                }
-            }
-            catch (fs::filesystem_error const& ex) {
-                std::cout
-                    << "what():  " << ex.what() << '\n'
-                    << "path1(): " << ex.path1() << '\n'
-                    << "path2(): " << ex.path2() << '\n'
-                    << "code().value():    " << ex.code().value() << '\n'
-                    << "code().message():  " << ex.code().message() << '\n'
-                    << "code().category(): " << ex.code().category().name() << '\n';
-            }
-        }
-        plot_folders.clear();
     }
 
     template<typename T>
-- 
2.43.0


From 382efc0f813c023c2ed0139ea77866a2dfda2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 071/102] fix: plots use the data files written for the sample
 and are refused when one is missing or incomplete

---
 .../include/ufjfmltk/visual/Visualization.hpp | 135 +++++-------------
 1 file changed, 36 insertions(+), 99 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 9a3127a..68cc918 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -46,6 +46,8 @@ namespace mltk::visualize{
         std::string plot_folder;
         std::vector<std::string> plot_folders;
         std::vector<std::string> temp_fnames;
+        /// Data files of the sample, one per class, in the order of its classes (empty if they could not be written).
+        std::vector<std::string> sample_files;
         bool is_shared, keep_temp_files;
         static size_t n_plots;
 
@@ -62,14 +64,7 @@ namespace mltk::visualize{
         std::vector<std::string> createTempFiles(std::string plot_folder="");
 
         /**
-         * \brief valid_file Returns if a given file name is valid.
-         * \param file  Name of the file.
-         * \return bool
-         */
-        bool valid_file(std::string file);
-
-        /**
-         * \brief getTempFilesNames Returns the name of the files in the temp folder.
+         * \brief getTempFilesNames Returns the name of the data files of the sample.
          * \return vector<string>
          */
         std::vector<std::string> getTempFilesNames(bool append_path=false);
@@ -88,7 +83,7 @@ namespace mltk::visualize{
 
         std::string prepareScript(std::string cmd);
 
-        std::vector<std::string> sortLabels(std::vector<std::string>& files, const std::string& type="scatter");
+        std::vector<std::string> sortLabels(std::vector<std::string>& files);
 
         std::string fetchConfigs();
 
@@ -377,7 +372,9 @@ namespace mltk::visualize{
     std::vector<std::string> Visualization< T >::createTempFiles(std::string plot_folder){
         size_t i, j, k, size = samples->size(), dim = samples->dim();
         std::vector<std::string> file_names;
+        bool complete = true;
 
+        sample_files.clear();
         if(plot_folder.empty()) {
             plot_folder = this->plot_folder;
         }
@@ -395,6 +392,7 @@ namespace mltk::visualize{
                 temp_files[i].open(file_name);
                 if(!temp_files[i].is_open()){
                     std::cerr << "Error opening the file " + file_name + "." << std::endl;
+                    complete = false;
                 }else{
                     file_names.push_back(file_name);
                 }
@@ -416,6 +414,7 @@ namespace mltk::visualize{
 
             for(i = 0; i < temp_files.size(); i++){
                 temp_files[i].close();
+                if(!temp_files[i]) complete = false;
             }
         } else{
             std::ofstream samples_file(std::string(plot_folder) + "samples.plt");
@@ -428,73 +427,27 @@ namespace mltk::visualize{
             }
 
             samples_file.close();
-            std::string fname = (this->samples->name().empty())?"samples.plt":this->samples->name()+".plt";
-            file_names.emplace_back(std::string(plot_folder) + fname);
-        }
-        return file_names;
-    }
-
-    template<typename T>
-    bool Visualization< T >::valid_file(std::string file){
-        int i = 0;
-        bool flag = false;
-        std::string ext;
-
-        if(file.empty() || file.size() < 4)
-            return false;
-
-        for(i = file.size()-1; i >= 0; i--){
-            if(file[i] == '.') break;
-            std::string f(1, file[i]);
-            ext = f + ext;
+            if(!samples_file) complete = false;
+            file_names.emplace_back(std::string(plot_folder) + "samples.plt");
         }
-
-        for(std::string type : types){
-            if(type == ext) flag = true;
+        if(!complete) {
+            std::cerr << "Error writing the data files in " << plot_folder << "." << std::endl;
+            return file_names;
         }
-
-        return flag;
+        sample_files = file_names;
+        return file_names;
     }
 
     template<typename T>
     std::vector<std::string> Visualization< T >::getTempFilesNames(bool append_path){
         std::vector<std::string> files;
-        auto path = std::string(plot_folder);
 
-#ifdef __unix__
-        DIR *dpdf;
-        struct dirent *epdf;
-
-        dpdf = opendir(path.c_str());
-        if(dpdf != nullptr){
-            while((epdf = readdir(dpdf))){
-                std::string file = std::string(epdf->d_name);
-                if(valid_file(file) && !file.empty()){
-                    files.push_back((append_path)?(path+file):file);
-                }
-            }
-        }else{
-            std::cout << "Folder not found!" << std::endl;
+        if(sample_files.empty()) {
+            throw std::runtime_error("The data files of the sample could not be written, there is nothing to plot.");
+        }
+        for(const std::string& file : sample_files){
+            files.push_back((append_path) ? file : file.substr(plot_folder.size()));
         }
-
-        closedir(dpdf);
-#elif _WIN32
-        HANDLE hFind;
-            WIN32_FIND_DATA data;
-
-            hFind = FindFirstFile((".\\"+plot_folder+"\\*.*").c_str(), &data);
-            if (hFind != INVALID_HANDLE_VALUE) {
-            do {
-                std::string file_name(data.cFileName);
-                if(valid_file(file_name) && !file_name.empty()){
-                    files.push_back((append_path) ? (path + file_name) : file_name);
-                }
-            } while (FindNextFile(hFind, &data));
-            FindClose(hFind);
-            }
-#else
-        std::cerr << "Can't remove temporary files, please remove manually. (Unsupported System)." << std::endl;
-#endif
 
         return files;
     }
@@ -900,7 +853,7 @@ namespace mltk::visualize{
         for(auto & classes_file : classes_files){
             classes_file.close();
         }
-        auto names = sortLabels(temp_files_names, "decision");
+        auto names = sortLabels(temp_files_names);
         for(int i = 0; i < temp_files_names.size(); i++){
             if(i < classes_files.size()-1) {
                 scatter_cmd += "'" + temp_files_names[i] + "' title '"+ names[i] +"' with points,";
@@ -932,38 +885,22 @@ namespace mltk::visualize{
     }
 
     template<typename T>
-    std::vector<std::string> Visualization<T>::sortLabels(std::vector<std::string> &files, const std::string& type) {
-        Point<int> classes = samples->classes();
+    std::vector<std::string> Visualization<T>::sortLabels(std::vector<std::string> &files) {
+        // the files are given in the order of the classes
+        std::vector<int> classes = samples->classes();
         auto class_names = samples->classesNames();
-        std::vector<std::string> names(files.size());
-        std::transform(files.begin(), files.end(), names.begin(), [type](std::string& path){
-            if(type == "decision") {
-                auto res = mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/');
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/')[1];
-            }else{
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '.')[0], '/')[1];
-            }
-        });
-        std::sort(names.begin(), names.end(),[&class_names, &classes](const auto& a, const auto& b){
-            auto aclass_pos = std::find(class_names.begin(), class_names.end(), a) - class_names.begin();
-            auto bclass_pos = std::find(class_names.begin(), class_names.end(), b) - class_names.begin();
-            return classes[aclass_pos] < classes[bclass_pos];
-        });
-        std::sort(files.begin(), files.end(), [&class_names, &classes, &type](const auto& a, const auto& b){
-            if(type == "decision") {
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '_')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '_')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }else{
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '.')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '.')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }
-        });
+        std::vector<size_t> order(files.size());
+        std::vector<std::string> names, sorted;
+
+        for(size_t i = 0; i < order.size(); i++) order[i] = i;
+        if(classes.size() == files.size()) {
+            std::sort(order.begin(), order.end(), [&classes](size_t a, size_t b){ return classes[a] < classes[b]; });
+        }
+        for(size_t i : order) {
+            sorted.push_back(files[i]);
+            names.push_back((i < class_names.size())?class_names[i]:"samples");
+        }
+        files = sorted;
         return names;
     }
 
-- 
2.43.0


From 4c4dfb64a5dae5351d3004732b35aaf1efedd765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 072/102] fix: plots of vectors and decision surfaces report
 data that could not be written

---
 .../include/ufjfmltk/visual/Visualization.hpp  | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 68cc918..353a6ce 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -597,6 +597,9 @@ namespace mltk::visualize{
         }
 
         ofs.close();
+        if(!ofs) {
+            throw std::runtime_error("Error writing the file " + path.string());
+        }
 
         cmd += "\'" + path.string() + "\' using 1:2 with linespoints";
 
@@ -749,6 +752,9 @@ namespace mltk::visualize{
         }
 
         ofs.close();
+        if(!ofs) {
+            throw std::runtime_error("Error writing the file " + path.string());
+        }
 
         cmd += "\'" + path.string() + "\' using 1:2:3 with points";
 
@@ -830,6 +836,10 @@ namespace mltk::visualize{
             data_file << std::endl;
         }
         data_file.close();
+        if(!data_file) {
+            std::cerr << "Error writing file (" << data_fname << ")" << std::endl;
+            return "";
+        }
 
         std::string dims = utils::itos(1) + ":" + utils::itos(2)+":(0)";
         std::string scatter_cmd;
@@ -850,8 +860,12 @@ namespace mltk::visualize{
             auto class_pos = std::find(classes.begin(), classes.end(), data_copy(i).Y()) - classes.begin();
             classes_files[class_pos] << data_copy(i)[0] << " " << data_copy(i)[1] << " " << data_copy(i).Y() << std::endl;
         }
-        for(auto & classes_file : classes_files){
-            classes_file.close();
+        for(size_t i = 0; i < classes_files.size(); i++){
+            classes_files[i].close();
+            if(!classes_files[i]) {
+                std::cerr << "Error writing file (" << temp_files_names[i] << ")" << std::endl;
+                return "";
+            }
         }
         auto names = sortLabels(temp_files_names);
         for(int i = 0; i < temp_files_names.size(); i++){
-- 
2.43.0


From 879df717dd110c92dacea5a4b6b9a65e5314bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 073/102] fix: plot scripts name the target column, the z axis
 and the settings they are sent with

---
 .../include/ufjfmltk/visual/Visualization.hpp             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 353a6ce..0c61d23 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -495,7 +495,7 @@ namespace mltk::visualize{
     std::string
     Visualization<T>::plot1DRegresion(int x, bool save, double scale, const std::string &title, const std::string &format,
                                       const std::string &x_label, const std::string &y_label) {
-        std::string dims = utils::itos(x+1) + ":" + utils::itos(2);
+        std::string dims = utils::itos(x+1) + ":" + utils::itos(this->samples->dim()+1);
         std::string cmd("plot ");
         std::vector<std::string> temp_files_names;
         size_t i;
@@ -736,8 +736,8 @@ namespace mltk::visualize{
         size_t i;
         std::string out_name = (title.empty())?"3dplot_":"3dplot_"+title;
 
-        configureRange(scale, x, y);
-        configurePlot(out_name, format, title, save, x_label, y_label);
+        configureRange(scale, x, y, z);
+        configurePlot(out_name, format, title, save, x_label, y_label, z_label);
 
         std::filesystem::path path{ "output" }; //creates TestingFolder object on C:
         path /= out_name+".dat"; //put something into there
@@ -793,7 +793,7 @@ namespace mltk::visualize{
         cmd += "g(x,y) notitle with lines ls 1 lt rgb \"red\",";
         cmd += "f(x,y) notitle with lines ls 1,";
         cmd += "h(x,y) notitle with lines ls 1 lt rgb \"red\";";
-        execute_command(cmd);
+        cmd = execute_command(cmd);
         return prepareScript(cmd);
     }
 
-- 
2.43.0


From f58e5e30f682c40b387eaa02439f078f18b33234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 074/102] fix: inserting a point keeps the names of the
 features left in the dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index c5c5ed1..3b68433 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1476,7 +1476,7 @@ namespace mltk{
             return false;
         }
 
-        if(p->size() > 0) {
+        if(p->size() > 0 && this->fnames.size() != p->size()) {
             this->fnames = std::vector<int>(p->size(), 0);
             std::iota(this->fnames.begin(), this->fnames.end(), 1);
         }
-- 
2.43.0


From 8a4d4babcdcbf40ef3fd6ce6d41c6f2f01306fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 075/102] fix: removing points keeps the index and the class
 frequencies in step with the points

---
 .../include/ufjfmltk/core/Data.hpp            | 44 +++++++------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 3b68433..31b21cc 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1203,22 +1203,15 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::removePoint(int pid){
-        int i;
-
-        if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
-        //Ids bound verification
-        if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
+        if(m_size <= 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
+        if(pid <= 0) return false;
         auto point = std::find_if(m_points.begin(), m_points.end(), [&pid](const auto& p){ return p->Id() == size_t(pid); });
         if(point == m_points.end()) return false;
-        int y;
-        if(!index.empty()){
-            index.resize(m_size);
-
-            for(i = 0; i < m_size; ++i){
-                if(i >= pid){
-                    index[i-1] = index[i] - 1;
-                }
-            }
+        int y, pos_removed = point - m_points.begin();
+        //Drop the removed position from the index
+        index.erase(std::remove(index.begin(), index.end(), pos_removed), index.end());
+        for(auto& idx: index){
+            if(idx > pos_removed) idx--;
         }
 
         //Find the point by its id and erase it
@@ -1272,7 +1265,7 @@ namespace mltk{
 
     template<typename T>
     std::vector<bool> mltk::Data< T >::removePoints(std::vector<int> ids){
-        int idsize = ids.size(), i, j;
+        int idsize = ids.size(), i;
         bool save;
         std::shared_ptr<Point< T > > po;
         auto p = m_points.begin();
@@ -1293,21 +1286,16 @@ namespace mltk{
 
             if(save) p++;
             else{
+                //Size verification.
+                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; notFound[i] = true; break;}
+                int c = po->Y(), pos_removed = p - m_points.begin();
                 p = m_points.erase(p);
-                int c = po->Y();
-                if(!index.empty()){
-                    index.resize(m_size);
-
-                    for(j = 0; j < m_size; ++j){
-                        if(j >= ids[i]){
-                            index[j-1] = index[j] - 1;
-                        }
-                    }
+                index.erase(std::remove(index.begin(), index.end(), pos_removed), index.end());
+                for(auto& idx: index){
+                    if(idx > pos_removed) idx--;
                 }
-                //Size verification.
-                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
-                auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
-                class_distribution[class_pos]--;
+                size_t class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
+                if(class_pos < class_distribution.size()) class_distribution[class_pos]--;
                 m_size--;
             }
         }
-- 
2.43.0


From 87acdeb476c3d48a720a922eeec824bd0b7e00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 076/102] fix: updating a label counts a class seen for the
 first time once

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 31b21cc..638f594 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1996,16 +1996,16 @@ namespace mltk{
 
         if(isClassification()){
             int _c = int(value);
-            auto class_pos = std::find(m_classes.begin(), m_classes.end(), _c);
-            if(class_pos == m_classes.end()){
+            size_t class_pos = std::find(m_classes.begin(), m_classes.end(), _c) - m_classes.begin();
+            if(class_pos == m_classes.size()){
                 m_classes.push_back(_c);
                 class_names.push_back(std::to_string(_c));
-                class_distribution.push_back(1);
+                class_distribution.push_back(0);
             }
-            auto oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
-            class_distribution[class_pos - m_classes.begin()]++;
-            class_distribution[oldclass_pos]--;
-            if(class_distribution[oldclass_pos] == 0){
+            size_t oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value)) - m_classes.begin();
+            class_distribution[class_pos]++;
+            if(oldclass_pos < class_distribution.size()) class_distribution[oldclass_pos]--;
+            if(oldclass_pos < class_distribution.size() && class_distribution[oldclass_pos] == 0){
                 class_distribution.erase(class_distribution.begin() + oldclass_pos);
                 m_classes.erase(m_classes.begin() + oldclass_pos);
                 class_names.erase(class_names.begin() + oldclass_pos);
-- 
2.43.0


From 5264f722f72b9ddd65eba4b49298160f4c663e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 077/102] fix: joining keeps class names with their classes and
 handles empty datasets

---
 .../include/ufjfmltk/core/Data.hpp            | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 638f594..290b6ac 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1610,6 +1610,13 @@ namespace mltk{
         std::vector<int> index1 = data.getIndex(), antindex = index;
         auto points1 = data.points();
 
+        if(size1 == 0) return;
+        if(m_points.empty()){
+            m_dim = dim1;
+            fnames = data.getFeaturesNames();
+            is_empty = false;
+        }
+
         if(m_dim > dim1){
             std::cerr << "Error: sample1 dimension must be less or equal to sample2\n";
             exit(1);
@@ -1637,13 +1644,13 @@ namespace mltk{
         m_classes.reserve(m_classes.size()+diff.size());
         m_classes.insert(m_classes.end(), diff.begin(), diff.end());
 
-        std::vector<std::string> diff_names, classes_names1 = data.classesNames(), classes_names = class_names;
-        std::sort(classes_names.begin(), classes_names.end());
-        std::sort(classes_names1.begin(), classes_names1.end());
-        std::set_difference(classes_names1.begin(), classes_names1.end(), classes_names.begin(), classes_names.end(),
-                            std::inserter(diff_names, diff_names.begin()));
-        class_names.reserve(class_names.size()+diff_names.size());
-        class_names.insert(class_names.end(), diff_names.begin(), diff_names.end());
+        // the name of each new class goes to the position of the class
+        std::vector<std::string> classes_names1 = data.classesNames();
+        std::vector<int> order1 = data.classes();
+        for(int c: diff){
+            size_t pos = std::find(order1.begin(), order1.end(), c) - order1.begin();
+            class_names.push_back((pos < classes_names1.size()) ? classes_names1[pos] : std::to_string(c));
+        }
 
         class_distribution.assign(m_classes.size(), 0);
         computeClassesDistribution();
-- 
2.43.0


From 342fe42f670bcb716b6a8d9e0dc06475ea5cef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 078/102] fix: the feature added by normalization gets a name
 of its own

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 290b6ac..bc96227 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1678,7 +1678,7 @@ namespace mltk{
             }
         }
         m_dim = old_dim + 1;
-        fnames.push_back(this->dim());
+        fnames.push_back(fnames.empty() ? int(this->dim()) : *std::max_element(fnames.begin(), fnames.end()) + 1);
 
         normalized = true;
     }
-- 
2.43.0


From 96183ad12edbbaba6e3e42b1b30274eb7e3a2479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:21 +0000
Subject: [PATCH 079/102] fix: datasets derived from a dataset keep its type
 and the names of its features

---
 .../include/ufjfmltk/core/Data.hpp             | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index bc96227..deadd33 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1317,6 +1317,7 @@ namespace mltk{
         //error check
         if(fsize > m_dim){ std::cerr << "Error: InsertFeature, fsize(" << ins_feat.size() << ")>dim(" << m_dim << ")\n"; return *smout; }
         smout->setDim(fsize);
+        smout->setType(this->type);
 
         //Copying information to new data array
         for(i = 0; i < m_size; i++){
@@ -1878,6 +1879,10 @@ namespace mltk{
         size_t _seed = (seed == 0) ? std::random_device{}() : seed;
 
         data.shuffle(_seed);
+        for(auto& partition: partitions) {
+            partition.setType(this->type);
+            partition.setFeaturesNames(fnames);
+        }
 
         if(this->isClassification() && stratified) {
             for (const mltk::PointPointer<T> obj : data.points()) {
@@ -2031,6 +2036,10 @@ namespace mltk{
         auto classes = data.classes();
         auto points = data.points();
 
+        std::for_each(class_split.begin(), class_split.end(), [this](auto& split){
+            split.setType(this->type);
+            split.setFeaturesNames(this->fnames);
+        });
         std::for_each(points.begin(), points.end(), [&](const auto pointPtr){
             auto class_pos = std::distance(classes.begin(), std::find(classes.begin(), classes.end(), int(pointPtr->Y())));
             class_split[class_pos].insertPoint(*pointPtr, keepIndex);
@@ -2049,6 +2058,8 @@ namespace mltk{
         std::random_device rd;
         std::mt19937 gen((seed == 0)? std::random_device()() : seed);
         Data< T > sample;
+        sample.setType(this->type);
+        sample.setFeaturesNames(this->fnames);
         std::set<std::size_t> ids;
         auto classes_split = splitByClasses();
         Point<double> class_dist(m_classes.size());
@@ -2098,6 +2109,13 @@ namespace mltk{
 
         assert((j == feats.size()) && "There are non-existing features on remove set.");
         
+        std::vector<int> new_fnames;
+        for(i = 0; i < (_size-invalid); i++){
+            new_fnames.push_back(fnames[feats_pos[i]]);
+        }
+        new_data.setType(this->type);
+        new_data.setFeaturesNames(new_fnames);
+
         for(auto const& point: this->m_points){
             auto new_point = make_point<T>(_size-invalid);
             for(i = 0; i < (_size-invalid); i++){
-- 
2.43.0


From a5dbce3bb7cdef0a25348cc9763e4e187c8f8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:21 +0000
Subject: [PATCH 080/102] fix: copying some classes of a dataset copies their
 names and counts and indexes the points copied

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index deadd33..614a1eb 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1531,6 +1531,7 @@ namespace mltk{
     void mltk::Data< T >::classesCopy(const mltk::Data< T > &_data, std::vector<int> &classes){
         size_t _size = 0;
         std::set<int> _classes;
+        this->m_points.clear();
         for(auto c: classes){
             _classes.insert(c);
         }
@@ -1551,11 +1552,20 @@ namespace mltk{
         this->m_classes = classes;
         this->m_dim = _data.dim();
         this->type = _data.getType();
-        this->index = _data.getIndex();
-        this->is_empty = _data.isEmpty();
+        this->is_empty = this->m_points.empty();
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = false;
+        this->resetIndex();
+        std::vector<int> all_classes = _data.classes();
+        std::vector<std::string> all_names = _data.classesNames();
+        this->class_names.clear();
+        for(auto c: classes){
+            size_t pos = std::find(all_classes.begin(), all_classes.end(), c) - all_classes.begin();
+            this->class_names.push_back((pos < all_names.size()) ? all_names[pos] : std::to_string(c));
+        }
+        this->class_distribution.assign(this->m_classes.size(), 0);
+        this->computeClassesDistribution();
     }
 
     template<typename T>
-- 
2.43.0


From ad1b4c58824247eef850d517ea37e9cd28cead0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:07 +0000
Subject: [PATCH 081/102] fix: counting the classes of a regression dataset
 touched memory outside the counts

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 614a1eb..231f097 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1870,11 +1870,12 @@ namespace mltk{
 
     template <typename T>
     void mltk::Data< T >::computeClassesDistribution(){
-        if(cdist_computed) return;
+        if(cdist_computed || !isClassification()) return;
         this->class_distribution = std::vector<size_t>(this->m_classes.size(), 0);
         for(auto p: m_points){
             int c = p->Y();
             auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
+            if(class_it == this->m_classes.end()) continue;
             size_t class_pos = class_it - this->m_classes.begin();
             class_distribution[class_pos]++;
         }
-- 
2.43.0


From 33e94f7c847f96398a04ff3d1be9d2a86e68f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:07 +0000
Subject: [PATCH 082/102] fix: samples drawn with replacement are points of
 their own, and classes without points are not sampled

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 231f097..e0c5573 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2078,9 +2078,10 @@ namespace mltk{
 
         for(int i = 0; i < class_dist.size(); i++){
             class_dist[i] = (double(classes_split[i].size()) / size()) * samp_size;
-            dist.emplace_back(0, classes_split[i].size()-1);
+            dist.emplace_back(0, (classes_split[i].size() > 0) ? classes_split[i].size()-1 : 0);
         }
         for(size_t i = 0; i < class_dist.size(); i++){
+            if(classes_split[i].size() == 0) continue;
             class_dist[i] = (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
         }
 
@@ -2094,7 +2095,7 @@ namespace mltk{
                     }
                     ids.insert(idx);
                 }
-                sample.insertPoint(classes_split[i][idx]);
+                sample.insertPoint(*classes_split[i][idx]);
             }
         }
 
-- 
2.43.0


From 628b77a587be0498c60ca9b7f9e78fc5ad7b4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:31 +0000
Subject: [PATCH 083/102] fix: removing features named twice removes the rest
 of them from the points too

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index e0c5573..36239dc 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1377,6 +1377,10 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::removeFeatures(std::vector<int> feats){
+        //Sort feats for remove features easily
+        sort(feats.begin(), feats.end());
+        feats.erase(std::unique(feats.begin(), feats.end()), feats.end());
+
         size_t i, j, k, psize = m_points.size(), rsize = feats.size();
         typename std::vector< T >::iterator itr;
         std::vector<int>::iterator fitr;
@@ -1393,9 +1397,6 @@ namespace mltk{
             return false;
         }*/
 
-        //Sort feats for remove features easily
-        sort(feats.begin(), feats.end());
-
         //Check the existence of the features to be removed
         for(i = 0; i < rsize; i++){
             for(j = 0; j < m_dim; j++){
-- 
2.43.0


From acb8f508030f57da363ab8580f8cadfa49413579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:15 +0000
Subject: [PATCH 084/102] fix: RFE returned every feature when a training
 failed after eliminations

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index aa05301..0afbc2c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -145,7 +145,7 @@ namespace mltk{
 
                 stmp_partial.reset();
                 stmp_partial = std::make_shared<Data<T> >();
-                stmp_partial->copy(*this->samples);
+                stmp_partial->copy(*stmp);
 
                 partial_features.clear();
 
-- 
2.43.0


From 754ae44a99d71fe3ab1f64a35e6f250b2434f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:15 +0000
Subject: [PATCH 085/102] fix: a second feature selection by the same RFE never
 ended

---
 .../include/ufjfmltk/featselect/RFE.hpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 0afbc2c..7c8bd9a 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -58,7 +58,7 @@ namespace mltk{
             std::vector<select_weight> weight;
             std::shared_ptr<Data<T> > stmp_partial, stmp(std::make_shared<Data<T> >());
             Solution sol;
-            int svcount = 0, level = 0, leveljump = 0, partial_svs = 0;
+            int svcount = 0, level = 0, leveljump = 0, partial_svs = 0, jump = this->jump;
             int partial = 0; //verifica se última solução é uma solução recuperada (parcial)
             double max_time = this->classifier->getMaxTime(), time_mult = this->samples->getTime_mult();
             double margin = 0, leave_oo = 0, kfolderror = 0, partial_time = 0, partial_margin = 0;
@@ -149,10 +149,10 @@ namespace mltk{
 
                 partial_features.clear();
 
-                int levelminusjump = (level - this->jump);
+                int levelminusjump = (level - jump);
 
                 if (levelminusjump > 0) {
-                    partial_features.resize((size_t) (level - this->jump));
+                    partial_features.resize((size_t) (level - jump));
                 }
 
                 for (i = 0; (i < levelminusjump && levelminusjump > 0); ++i) {
@@ -241,10 +241,10 @@ namespace mltk{
                     break;
                 }
 
-                if (level + this->jump > this->depth)
+                if (level + jump > this->depth)
                     leveljump = this->depth;
                 else
-                    leveljump = level + this->jump;
+                    leveljump = level + jump;
 
                 /*manutencao do w do pai para o IMA Primal*/
                 if (this->classifier->getFormulationString() == "Primal") {
@@ -279,11 +279,11 @@ namespace mltk{
                 weight.clear();
 
                 /*increment*/
-                if (level + this->jump > this->depth) {
+                if (level + jump > this->depth) {
                     level = this->depth;
-                    this->jump = 0;
+                    jump = 0;
                 } else {
-                    level += this->jump;
+                    level += jump;
 
                 }
                 /*get temp data struct*/
-- 
2.43.0


From cc58756e0b017a79dec7d4a5bc508a84c9db3d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:11 +0000
Subject: [PATCH 086/102] fix: setFinalDimension had no effect on any feature
 selector

---
 .../include/ufjfmltk/featselect/FeatureSelection.hpp       | 5 ++++-
 .../include/ufjfmltk/featselect/Fisher.hpp                 | 6 ++----
 .../include/ufjfmltk/featselect/Golub.hpp                  | 7 +++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
index 132956d..0a5d109 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
@@ -78,7 +78,10 @@ namespace mltk{
              * \brief setFinalDimension Set the classifier used for the FeatureSelection.
              * \param final_dim The final number of dimensions.
              */
-            void setFinalDimension(int final_dim) { this->final_dim = final_dim; }
+            void setFinalDimension(int final_dim) {
+                this->final_dim = final_dim;
+                if (this->samples) this->depth = (int) this->samples->dim() - final_dim;
+            }
 
             /**
              * \brief setDepth Set the depth of the search.
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 753abc8..8090bd1 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -12,7 +12,6 @@ namespace mltk{
         template<typename T = double>
         class Fisher : public FeatureSelection<T> {
         private:
-            int number = 0;
 
             struct fisher_select_score {
                 int fname;
@@ -40,7 +39,6 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
             this->classifier = classifier;
             this->final_dim = final_dim;
-            this->number = final_dim;
         }
 
         template<typename T>
@@ -49,7 +47,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number, -1), fnames;
+            std::vector<int> remove(dim - this->final_dim, -1), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<fisher_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
@@ -120,7 +118,7 @@ namespace mltk{
             stmp_partial->copy(*this->samples);
             stmp->copy(*this->samples);
 
-            for (i = 0; i < (dim - this->number); ++i) {
+            for (i = 0; i < (dim - this->final_dim); ++i) {
                 if (this->verbose) std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << "\n";
                 remove[i] = scores[i].fname;
                 stmp->removeFeatures(remove);
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 732815d..47ccd9c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -10,7 +10,6 @@ namespace mltk{
         template<typename T = double>
         class Golub : public FeatureSelection<T> {
         private:
-            int number;
 
             struct golub_select_score {
                 int fname;
@@ -31,7 +30,7 @@ namespace mltk{
         Golub<T>::Golub(const Data<T>& samples, classifier::Classifier<T> *classifier, int number) {
             this->samples = mltk::make_data<T>(samples);
             this->classifier = classifier;
-            this->number = number;
+            this->final_dim = number;
         }
 
         template<typename T>
@@ -40,7 +39,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number), fnames;
+            std::vector<int> remove(dim - this->final_dim), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<golub_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
@@ -111,7 +110,7 @@ namespace mltk{
             stmp_partial->copy(*this->samples);
             stmp->copy(*this->samples);
 
-            for (i = 0; i < (dim - this->number); ++i) {
+            for (i = 0; i < (dim - this->final_dim); ++i) {
                 if (this->verbose) std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << "\n";
                 remove[i] = scores[i].fname;
                 stmp->removeFeatures(remove);
-- 
2.43.0


From 0fe9792e5622986e982cc0985ccb20d1be498535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:11 +0000
Subject: [PATCH 087/102] fix: the undefined score of a constant feature left
 the filter ranking arbitrary

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp   | 1 +
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 8090bd1..9247d90 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -90,6 +90,7 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = std::pow(avg_pos[i] - avg_neg[i], 2) / (sd_pos[i] + sd_neg[i]);
+                if (std::isnan(scores[i].score)) scores[i].score = 0; // a constant feature separates nothing
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 47ccd9c..f2a8258 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -82,6 +82,7 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = fabs(avg_pos[i] - avg_neg[i]) / (sd_pos[i] + sd_neg[i]);
+                if (std::isnan(scores[i].score)) scores[i].score = 0; // a constant feature separates nothing
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
-- 
2.43.0


From ba47d05cffa37134a28d75eb9774620725ae0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:11 +0000
Subject: [PATCH 088/102] fix: RFE with cross-validation ranked features by the
 weights of the last fold

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 7c8bd9a..d74ed8f 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -189,7 +189,7 @@ namespace mltk{
                     //printf("Dim: %d, Margem: %lf, Distancia entre os centros: %f, SVs: %d\n", (dim-level), data_get_dist_centers(stmp), margin, svcount);
                 }
 
-                w = this->classifier->getSolutionRef()->w.X();
+                w = sol.w.X();
                 weight.resize(stmp->dim());
                 auto fnames = stmp->getFeaturesNames();
 
-- 
2.43.0


From a788f144b00d7e27478eb42fce1a238e17176b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:54 +0000
Subject: [PATCH 089/102] fix: primal learners retrained on another dimension
 indexed the old weights out of range

---
 .../include/ufjfmltk/classifier/IMA.hpp              | 10 ++++++++--
 .../include/ufjfmltk/classifier/Perceptron.hpp       | 12 +++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 619f5aa..b79a86d 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -397,9 +397,15 @@ namespace mltk{
             std::vector<T> x;
             this->timer.reset();
             
-            if (!this->solution.w.empty())
+            if (this->solution.w.size() == dim)
                 this->w = this->solution.w.X();
-            else this->w.assign(this->samples->dim(), 0.0);
+            else {
+                if (!this->solution.w.empty()) { // learned on a dataset of another dimension
+                    norm = Solution().norm;
+                    bias = 0.0;
+                }
+                this->w.assign(dim, 0.0);
+            }
             while (time - this->timer.elapsed() > 0) {
                 for (e = 0, i = 0; i < size; ++i) {
                     //shuffling data r = i + rand()%(size-i); j = index[i]; idx = index[i] = index[r]; index[r] = j;
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index b98f8b0..53a9583 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -186,7 +186,7 @@ namespace mltk{
             std::vector<T> x;
             std::vector<int> index = this->samples->getIndex();
 
-            if (this->solution.w.empty()) this->solution.w.resize(dim);
+            if (this->solution.w.size() != dim) this->solution.w.X().assign(dim, 0.0);
             this->solution.bias = 0;
             this->solution.norm = 0.0;
 
@@ -254,8 +254,14 @@ namespace mltk{
             std::vector<int> index = this->samples->getIndex();
             std::shared_ptr<Point<T> > p;
 
-            if (func.empty()) func.resize(size);
-            if (w.empty()) w.resize(dim);
+            if (func.size() != size) func.resize(size);
+            if (w.size() != dim) {
+                if (!w.empty()) { // learned on a dataset of another dimension
+                    norm = Solution().norm;
+                    bias = 0.0;
+                }
+                w.assign(dim, 0.0);
+            }
             e = 1, s = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
-- 
2.43.0


From fdf30f343f124403cdc3b2345186dc41be3f88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:03 +0000
Subject: [PATCH 090/102] fix: the fixed margin dual perceptron retrained on
 more points indexed its multipliers out of range

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 53a9583..bba1380 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -494,8 +494,8 @@ namespace mltk{
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
 
-            if(this->alpha.empty()){
-                this->alpha.resize(this->samples->size());
+            if(this->alpha.size() != size){
+                this->alpha.assign(size, 0.0);
             }
 
             //the samples may carry multipliers from an earlier training
-- 
2.43.0


From a00d2e88a70984731b572ffa25bb76a34ca366b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:23 +0000
Subject: [PATCH 091/102] fix: assigning a shorter vector to a point kept its
 old tail

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 47eb33a..935d9da 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -321,7 +321,7 @@ namespace mltk {
             }
 
             Point& operator=(std::vector<T> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -334,7 +334,7 @@ namespace mltk {
 
             template< typename T2 >
             Point& operator=(std::vector<T2> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From 6b1b1009764608329f93957d8349afa634b3f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:25 +0000
Subject: [PATCH 092/102] fix: undo fdf30f3, the vector it resizes is never
 read

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index bba1380..53a9583 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -494,8 +494,8 @@ namespace mltk{
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
 
-            if(this->alpha.size() != size){
-                this->alpha.assign(size, 0.0);
+            if(this->alpha.empty()){
+                this->alpha.resize(this->samples->size());
             }
 
             //the samples may carry multipliers from an earlier training
-- 
2.43.0


From 239abdb23b861f7ca15663ad42e75e0bd3b29b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 093/102] fix: a member predicting none of the classes made an
 ensemble count its vote out of range

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp             | 2 +-
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp           | 2 +-
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 65f3f13..2a137d3 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -46,7 +46,7 @@ namespace mltk {
                 for (size_t i = 0; i < n_estimators; i++) {
                     int pred = this->m_learners[i]->evaluate(p);
                     size_t pred_pos = std::find(classes.begin(), classes.end(), pred) - classes.begin();
-                    votes[pred_pos]++;
+                    if (pred_pos < votes.size()) votes[pred_pos]++;
                 }
                 return classes[std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin()];
             }
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index 5e84b93..63fae48 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -40,7 +40,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += 1;
+                    if (pred_pos < votes.size()) votes[pred_pos] += 1;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 4760255..48261ee 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -50,7 +50,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += this->weights[i];
+                    if (pred_pos < votes.size()) votes[pred_pos] += this->weights[i];
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From 7298e5c3a316010dd6d190528620416905229685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 094/102] fix: hard voting overwrote the weights set for soft
 voting

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp       | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 48261ee..a556eeb 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -38,11 +38,8 @@ namespace mltk{
             double evaluate(const Point<T> &p, bool raw_value = false) override {
                 auto _classes = this->samples->classes();
                 mltk::Point<double> votes(_classes.size(), 0.0);
-                if (voting_type == "soft") {
-                    assert(this->weights.size() > 0);
-                } else {
-                    this->weights = Point<double>(this->m_learners.size(), 1);
-                }
+                const bool soft = (voting_type == "soft");
+                assert(!soft || this->weights.size() > 0);
                 for (size_t i = 0; i < this->m_learners.size(); i++) {
                     auto pred = this->m_learners[i]->evaluate(p);
                     // get prediction position
@@ -50,7 +47,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    if (pred_pos < votes.size()) votes[pred_pos] += this->weights[i];
+                    if (pred_pos < votes.size()) votes[pred_pos] += soft ? this->weights[i] : 1.0;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From 3b95cc6c45047450a834599504d5005381e902b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 095/102] fix: assigning a voting classifier returned nothing
 and lost the type of voting

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index a556eeb..b50ce01 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -75,6 +75,8 @@ namespace mltk{
                 this->m_learners = voter.m_learners;
                 this->weights = voter.weights;
                 this->samples = voter.samples;
+                this->voting_type = voter.voting_type;
+                return *this;
             }
         };
     }
-- 
2.43.0


From 5467da8b5e818e018361e00115ead4711e8517af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 096/102] fix: AdaBoost squared the weights of misclassified
 points and let its members permute them

---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 257004b..3ae0e47 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -37,19 +37,21 @@ namespace mltk {
                 for(size_t m = 0; m < n_estimators; m++){
                     auto learner = this->m_learners[m];
                     learner->setSeed(this->seed+m);
-                    learner->setSamples(this->samples);
+                    // a copy: some learners shuffle the dataset they train on, and weights[i] belongs to point i
+                    learner->setSamples(*this->samples);
                     learner->train();
                     // compute the probability of miss classification for each point
                     Point<double> errors(_size, 0.0);
                     for(size_t i = 0; i < _size; i++){
                         auto point = (*this->samples)[i];
 
-                        if(point->Y() != learner->evaluate(*point)) errors[i] = weights[i];
+                        if(point->Y() != learner->evaluate(*point)) errors[i] = 1.0;
                     }
                     // compute the estimator error as the weighted average of each point error
                     err[m] = mltk::dot(weights, errors)/weights.sum();
                     // compute alpha to be used on weight update
-                    alpha[m] = ((err[m] > 0)?std::log((1.0-err[m])/err[m]):1) + std::log(K - 1);
+                    // (a learner wrong on every point has no say)
+                    alpha[m] = (errors.sum() == _size)? 0.0 : ((err[m] > 0)?std::log((1.0-err[m])/err[m]):1) + std::log(K - 1);
                     weights *= mltk::exp(alpha[m]*errors);
                     // Normalize weights to form a probability distribution
                     weights /= weights.sum();
-- 
2.43.0


From 624a4cbf92527773539099a3f8f66c0404ac948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 097/102] fix: primal and dual classifiers ignored raw_value

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp               | 1 +
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e3eea10..cbc17ab 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -40,6 +40,7 @@ namespace mltk{
                     func += this->solution.alpha[r] * (*this->samples)[r]->Y() * fk;
                 }
 
+                if (raw_value) return func;
                 return (func >= 0) ? 1 : -1;
             }
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a557794..6e11824 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -59,6 +59,7 @@ namespace mltk{
                         func += this->solution.w[i] * p[i];
                     }
 
+                    if (raw_value) return func;
                     return (func >= 0) ? 1 : -1;
                 }
 
-- 
2.43.0


From 7e86c8978b662a7406b4694925654a339d8853b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 098/102] fix: an untrained dual classifier or balanced
 perceptron evaluated out of range

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp           | 5 +++++
 .../include/ufjfmltk/classifier/Perceptron.hpp               | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index cbc17ab..84491e5 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -26,6 +26,11 @@ namespace mltk{
         public:
 
             virtual double evaluate(const Point <T> &p, bool raw_value = false) override {
+                if (!this->samples || !this->kernel || this->solution.alpha.size() != this->samples->size()) {
+                    std::cerr << "The classifier must be trained with its samples!" << std::endl;
+                    return 0;
+                }
+
                 double func, bias = this->solution.bias, fk = 0.0, lambda;
                 size_t size = this->samples->size(), dim = this->samples->dim(), r;
                 auto po = std::make_shared<Point<T> >(p);
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 53a9583..805b239 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -145,6 +145,11 @@ namespace mltk{
             }
 
             double evaluate(const Point<T> &p, bool raw_value) override {
+                if (p.size() != weights.size()) {
+                    std::cerr << "The point must have the same dimension of the feature set! (" << p.size()
+                              << ", " << weights.size() << ")" << std::endl;
+                    return 0;
+                }
                 if (raw_value) {
                     return mltk::dot(weights, p) + bias;
                 } else {
-- 
2.43.0


From d3c676fc9050f5057d4f784011648cad4b7fa338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 099/102] fix: a committee whose training was interrupted kept
 null members

---
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index 63fae48..142036b 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -18,9 +18,12 @@ namespace mltk{
             }
 
             bool train() override {
-                this->m_learners.resize(n);
+                std::vector<LearnerPointer<T>> members;
+                for (size_t i = 0; i < n; i++) {
+                    members.push_back(std::make_shared<classifier::BalancedPerceptron<T>>());
+                }
+                this->m_learners = members;
                 for (size_t i = 0; i < n; i++) {
-                    this->m_learners[i] = std::make_shared<classifier::BalancedPerceptron<T>>();
                     this->m_learners[i]->setSeed((this->seed == 0) ? 0 : this->seed+i);
                     this->m_learners[i]->setSamples(this->samples);
                     this->m_learners[i]->train();
-- 
2.43.0


From f6a499acadae08b04ee434578fb38ba60206342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 100/102] fix: KNN with more neighbours than points read past
 the dataset

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index cf4f035..9952916 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -66,6 +66,8 @@ namespace mltk{
                 mltk::Point<double> distances(this->samples->size());
                 std::vector<int> classes = this->samples->classes();
                 std::vector<size_t> idx(distances.size());
+                // there may be less than k points to choose from
+                const size_t k = std::min(this->k, idx.size());
                 std::vector<PointPointer<T>> neigh;
                 auto p0 = std::make_shared<Point<T> >(p);
                
@@ -81,19 +83,19 @@ namespace mltk{
 
 
                         // sort the index vector by the metrics from the sample to be evaluated
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&distances](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + k, idx.end(), [&distances](size_t i1, size_t i2) {
                             return distances[i1] < distances[i2];
                         });
                     }else if(!this->distances.isDiagonalMatrix()){
                         size_t idp = p.Id()-1;
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + k, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
 
                             return this->distances[idp][id1] < this->distances[idp][id2];
                         }); 
                     } else { 
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + k, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
@@ -113,9 +115,9 @@ namespace mltk{
                     }
                 }
                // Define frequency counting logic in a lambda function.
-                auto calculateFrequency = [&idx, &points, &neigh, this](int c) {
+                auto calculateFrequency = [&idx, &points, &neigh, k, this](int c) {
                     if (algorithm == "brute") {
-                        return std::count_if(idx.begin(), idx.begin() + this->k, [&points, &c](size_t id) { 
+                        return std::count_if(idx.begin(), idx.begin() + k, [&points, &c](size_t id) { 
                             return points[id]->Y() == c; 
                         });
                     } else {
-- 
2.43.0


From 7473baacd049db22dcb1c974f507c30e2fdfc992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:41 +0000
Subject: [PATCH 101/102] fix: a kernel computed for another number of points
 was indexed out of range

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 1454dba..7ab7dd5 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -160,7 +160,7 @@ namespace mltk{
     void Kernel<T>::compute(const std::shared_ptr<Data< T > > samples, typename FunctionType<T>::Type f){
         size_t i, j, size = samples->size(), dim = samples->dim();
 
-        if(computed) return;
+        if(computed && K.size() == size) return;
         if(this->type == mltk::CUSTOM) this->func = f;
         K.assign(size, std::vector<double>(size, 0.0));
 
-- 
2.43.0


From 6c0810a9fa7ae4b55e74c06de803749eaf28fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:41 +0000
Subject: [PATCH 102/102] fix: dual members of OneVsAll, OneVsOne and the
 ensembles trained on the kernel matrix of other points

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp       | 9 +++++++++
 .../include/ufjfmltk/classifier/OneVsAll.hpp             | 2 +-
 .../include/ufjfmltk/classifier/OneVsOne.hpp             | 2 +-
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp     | 2 +-
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp      | 2 +-
 .../include/ufjfmltk/ensemble/Ensemble.hpp               | 1 +
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp       | 2 +-
 7 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index 84491e5..270d92a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -51,6 +51,15 @@ namespace mltk{
 
             inline void recomputeKernel(){ if(this->kernel) this->kernel->recompute(); }
 
+            /**
+             * \brief Give samples to a learner which may be a dual one, its kernel matrix is then computed again.
+             */
+            template<typename Samples>
+            static void setSamplesOf(Learner<T> &learner, Samples &&samples) {
+                learner.setSamples(std::forward<Samples>(samples));
+                if (auto dual = dynamic_cast<DualClassifier<T> *>(&learner)) dual->recomputeKernel();
+            }
+
             /*********************************************
              *               Setters                     *
              *********************************************/
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index c0b425e..02404c3 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -74,7 +74,7 @@ namespace mltk{
                     }
 
                     // train the current learner
-                    learner->setSamples(temp_samples);
+                    DualClassifier<T>::setSamplesOf(*learner, temp_samples);
                     learner->train();
 
                     // consider the next class
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index 804611a..982c20d 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -109,7 +109,7 @@ namespace mltk{
                         }
 
                         // train the current binary learner
-                        learner->setSamples(temp_samples);
+                        DualClassifier<T>::setSamplesOf(*learner, temp_samples);
                         learner->train();
                     }
                 }
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 3ae0e47..f258993 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -38,7 +38,7 @@ namespace mltk {
                     auto learner = this->m_learners[m];
                     learner->setSeed(this->seed+m);
                     // a copy: some learners shuffle the dataset they train on, and weights[i] belongs to point i
-                    learner->setSamples(*this->samples);
+                    classifier::DualClassifier<T>::setSamplesOf(*learner, *this->samples);
                     learner->train();
                     // compute the probability of miss classification for each point
                     Point<double> errors(_size, 0.0);
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 2a137d3..2a79040 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -34,7 +34,7 @@ namespace mltk {
                 size_t samp_size = this->samples->size() / n_estimators;
                 for (size_t i = 0; i < n_estimators; i++) {
                     this->m_learners[i]->setSeed(seed+i);
-                    this->m_learners[i]->setSamples(this->samples->sampling(samp_size, true, seed+i));
+                    classifier::DualClassifier<T>::setSamplesOf(*this->m_learners[i], this->samples->sampling(samp_size, true, seed+i));
                     this->m_learners[i]->train();
                 }
                 return true;
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp
index 02a38a1..e64eee9 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp
@@ -6,6 +6,7 @@
 
 #include <ufjfmltk/core/Learner.hpp>
 #include <ufjfmltk/classifier/Classifier.hpp>
+#include <ufjfmltk/classifier/DualClassifier.hpp>
 
 namespace mltk{
 namespace ensemble{        
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index b50ce01..896bffb 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -29,7 +29,7 @@ namespace mltk{
                 // train each one of the given weak learners
                 for (size_t i = 0; i < this->m_learners.size(); i++) {
                     this->m_learners[i]->setSeed(this->seed);
-                    this->m_learners[i]->setSamples(this->samples);
+                    classifier::DualClassifier<T>::setSamplesOf(*this->m_learners[i], this->samples);
                     this->m_learners[i]->train();
                 }
                 return true;
-- 
2.43.0

