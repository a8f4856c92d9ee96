From 01a7f96c0a4a38a59138462e41747d28c07fa315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 01/55] fix: do not lose the wake-up of a submission waiting on
 a full AIO queue

---
 lib/abstractio/linux_aio_scheduler.cpp | 11 ++++++-----
 lib/abstractio/linux_aio_scheduler.hpp |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..1b6fa00 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -73,7 +73,7 @@ void LinuxAIOScheduler::notify_loop()
 
         if (num_events > 0) {
             std::lock_guard<std::mutex> guard(m_cv_lock);
-            m_waiting_submissions = false;
+            m_delivery_epoch++;
 
             m_cv_submission.notify_all();
         }
@@ -126,6 +126,9 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
 
 
     while (remaining_subs > 0) {
+        // events delivered after this point might free some space in the queue
+        const uint64_t epoch = m_delivery_epoch.load();
+
         res = io_submit(m_ioctx, remaining_subs, iocbs_head);
 #ifdef LOG_AIO_SCHEDULER_STATS
         m_submit_calls++;
@@ -147,10 +150,8 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             // wait until the submission queue has some space
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
-            m_waiting_submissions = true;
-            while (m_waiting_submissions) {
-                m_cv_submission.wait(lock);
-            }
+            m_cv_submission.wait(
+                lock, [this, epoch] { return m_delivery_epoch != epoch; });
         } else {
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
diff --git a/lib/abstractio/linux_aio_scheduler.hpp b/lib/abstractio/linux_aio_scheduler.hpp
index a4b8970..334ff07 100644
--- a/lib/abstractio/linux_aio_scheduler.hpp
+++ b/lib/abstractio/linux_aio_scheduler.hpp
@@ -79,7 +79,7 @@ private:
 
     std::mutex              m_cv_lock;
     std::condition_variable m_cv_submission;
-    bool                    m_waiting_submissions{false};
+    std::atomic<uint64_t>   m_delivery_epoch{0};
 
 #ifdef LOG_AIO_SCHEDULER_STATS
     std::atomic_size_t m_submit_calls{0};
-- 
2.43.0


From e9d94de6e2b669f6c1fda5be3e81fc1885635fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 02/55] fix: report and release the requests of a partially
 failed AIO submission

---
 lib/abstractio/linux_aio_scheduler.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 1b6fa00..c322485 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -156,6 +156,16 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
             perror("io_submit");
+
+            // the callbacks of these requests will never be called
+            for (size_t i = 0; i < remaining_subs; i++) {
+                delete static_cast<LinuxAIORequest*>(iocbs_head[i]->data);
+            }
+
+            if (remaining_subs < n_iocbs) {
+                // the first requests have been accepted by the kernel
+                return n_iocbs - remaining_subs;
+            }
             return -1;
         }
     }
-- 
2.43.0


From 83c49d04e422d83c23cbbab531d3b856e3c2732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 03/55] fix: do not count failed io_getevents calls as
 completed AIO requests

---
 lib/abstractio/linux_aio_scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index c322485..bd4f5ed 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -69,6 +69,7 @@ void LinuxAIOScheduler::notify_loop()
         if (num_events < 0) {
             std::cerr << "Error in io_getevents: " << std::to_string(errno)
                       << "(" << strerror(errno) << ")\n";
+            continue;
         }
 
         if (num_events > 0) {
-- 
2.43.0


From f806a72ce72e8d11e05529d807b4ac49f9613974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 04/55] fix: an AIO query racing with wait_completions() is
 either completed or rejected

---
 lib/abstractio/linux_aio_scheduler.cpp | 28 +++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd4f5ed..6be0d02 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -195,7 +195,13 @@ int LinuxAIOScheduler::submit_pread(int                     fd,
     struct iocb  iocb;
     struct iocb* iocbs = &iocb;
 
-    uint64_t         query_id = m_submitted_queries_count.fetch_add(1);
+    uint64_t query_id = m_submitted_queries_count.fetch_add(1);
+    if (m_stop_flag) {
+        // wait_completions() might not have seen this query
+        m_failed_queries_count.fetch_add(1);
+        return -EINVAL_INVALID_STATE;
+    }
+
     LinuxAIORequest* req
         = new LinuxAIORequest(query_id, data, std::move(callback));
 
@@ -244,7 +250,17 @@ int LinuxAIOScheduler::submit_preads(const std::vector<PReadSumission>& subs)
     }
 
     // now we have to submit the iocbs
-    int ret = submit_iocbs(iocbs, iocbs_count);
+    int ret = -EINVAL_INVALID_STATE;
+
+    if (!m_stop_flag) {
+        ret = submit_iocbs(iocbs, iocbs_count);
+    } else {
+        // wait_completions() might not have seen these queries
+        m_failed_queries_count.fetch_add(iocbs_count);
+        for (size_t i = 0; i < iocbs_count; i++) {
+            delete static_cast<LinuxAIORequest*>(iocbs[i]->data);
+        }
+    }
 
     // free the allocated memory
     free(iocbs);
@@ -282,7 +298,13 @@ int LinuxAIOScheduler::submit_pwrite(int                     fd,
     struct iocb  iocb;
     struct iocb* iocbs = &iocb;
 
-    uint64_t         query_id = m_submitted_queries_count.fetch_add(1);
+    uint64_t query_id = m_submitted_queries_count.fetch_add(1);
+    if (m_stop_flag) {
+        // wait_completions() might not have seen this query
+        m_failed_queries_count.fetch_add(1);
+        return -EINVAL_INVALID_STATE;
+    }
+
     LinuxAIORequest* req
         = new LinuxAIORequest(query_id, data, std::move(callback));
 
-- 
2.43.0


From 4ff58f1127311bb6e2b23eddfc06e43d85012cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 05/55] fix: reject asynchronous appends to a committed
 awonvm_vector

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..d57850f 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -242,6 +242,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
 template<typename T, size_t ALIGNMENT>
 size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
 {
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_io_scheduler) {
         throw std::runtime_error("No IO Scheduler set");
     }
-- 
2.43.0


From 297e60d4c4cc48689bc37c38b4013ec82689f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 06/55] fix: reject reads at the position following the last
 one of an awonvm_vector

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index d57850f..a573cca 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -338,7 +338,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -380,7 +380,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -443,7 +443,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     submissions.reserve(requests.size());
 
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
-- 
2.43.0


From 4fede947ec8b91fb64155941a4f0341410e0d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 07/55] fix: write the value appended to an awonvm_vector at
 the position returned for it

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index a573cca..1a4fc7c 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -220,11 +220,9 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    int res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
-- 
2.43.0


From 2c629da890ff06cc4bc877ac06179ee82a96926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 08/55] fix: moving an awonvm_vector transfers its size, state
 and file

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 1a4fc7c..ee2d78e 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -173,9 +173,12 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
       m_io_scheduler(std::move(vec.m_io_scheduler))
 {
-    vec.m_fd = 0;
+    // the moved-from vector does not own the file anymore
+    vec.m_fd           = -1;
+    vec.m_is_committed = true;
 }
 
 template<typename T, size_t ALIGNMENT>
@@ -188,7 +191,9 @@ awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
             m_io_scheduler->wait_completions();
         }
     }
-    close(m_fd);
+    if (m_fd >= 0) {
+        close(m_fd);
+    }
 }
 
 template<typename T, size_t ALIGNMENT>
-- 
2.43.0


From fc0419b972c6ab29c0e83c014253942c3f69f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 09/55] fix: do not count unused reserved space as elements of
 a committed awonvm_vector

---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index ee2d78e..067a999 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -9,6 +9,7 @@
 #include <cassert>
 #include <cerrno>
 #include <cstring>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include <atomic>
@@ -311,6 +312,18 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
         } else {
             fsync(m_fd);
         }
+
+        // drop the reserved space which has not been used: the size of the
+        // vector is deduced from the size of the file when it is re-opened
+        struct stat sb;
+        off_t       used_space = m_size.load() * sizeof(T);
+        if (fstat(m_fd, &sb) == 0 && sb.st_size > used_space
+            && ftruncate(m_fd, used_space) != 0) {
+            sse::logger::logger()->warn(
+                "Unable to release the space reserved by the "
+                "awonvm_vector. Error: {}",
+                strerror(errno));
+        }
     }
     m_is_committed = true;
 }
-- 
2.43.0


From d060e0e692c32b74e542cc864e256f8fa8248b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 10/55] fix: switch the access mode of an awonvm_vector without
 I/O scheduler

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 067a999..86be9f7 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -333,7 +333,9 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
         // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
+        if (m_io_scheduler) {
+            m_io_scheduler->wait_completions();
+        }
 
         // close the current file descriptor
         close(m_fd);
@@ -343,8 +345,10 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 
 
         // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        if (m_io_scheduler) {
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(new_sched);
+        }
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From 43a48690acd022c082146d4d37de71452499b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 11/55] fix: asynchronous accesses to awonvm_vectors of weakly
 aligned values

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 86be9f7..3c45a1f 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -29,6 +29,10 @@ public:
     static constexpr size_t kTypeAlignment = ALIGNMENT;
     static constexpr size_t kValueSize     = sizeof(T);
 
+    // posix_memalign does not support smaller alignments
+    static constexpr size_t kBufferAlignment
+        = ALIGNMENT > sizeof(void*) ? ALIGNMENT : sizeof(void*);
+
     static_assert(kTypeAlignment <= kValueSize,
                   "Invalid alignment for the type size");
 
@@ -264,7 +268,7 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     // we have to copy the data so it does not get destructed by the caller
     void* buf;
 
-    int ret = posix_memalign((&buf), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
+    int ret = posix_memalign((&buf), kBufferAlignment, std::max(ALIGNMENT, sizeof(T)));
 
     if (ret != 0 || buf == nullptr) {
         throw std::runtime_error("Error when allocating aligned memory: errno "
@@ -408,7 +412,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
 
     void* buffer;
     int   ret
-        = posix_memalign((&buffer), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
+        = posix_memalign((&buffer), kBufferAlignment, std::max(ALIGNMENT, sizeof(T)));
 
     if (ret != 0 || buffer == nullptr) {
         throw std::runtime_error("Error when allocating aligned memory: errno "
@@ -472,7 +476,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
 
         void* buffer;
         int   ret = posix_memalign(
-            (&buffer), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
+            (&buffer), kBufferAlignment, std::max(ALIGNMENT, sizeof(T)));
 
         if (ret != 0 || buffer == nullptr) {
             throw std::runtime_error(
-- 
2.43.0


From 0564c6a6dff545aaf141085133cf0eee58924bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 12/55] fix: data race on the warning flag of awonvm_vector

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 3c45a1f..61370b9 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -100,7 +100,7 @@ private:
     std::atomic<bool> m_is_committed{false};
 
     std::unique_ptr<Scheduler> m_io_scheduler;
-    bool                       m_io_warn_flag{false};
+    std::atomic<bool>          m_io_warn_flag{false};
 };
 template<typename T, size_t ALIGNMENT>
 constexpr size_t awonvm_vector<T, ALIGNMENT>::kValueSize;
-- 
2.43.0


From 9dd3204ce34741f0d5e8c06a0121c7b8fe71e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 13/55] fix: data race on the creation of the shared I/O thread
 pool

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..0e92918 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -13,16 +13,14 @@
 namespace sse {
 namespace abstractio {
 
-static ThreadPool* _shared_io_pool = nullptr;
-
 constexpr uint32_t kAIOThreadsCount = 50;
 
 static ThreadPool& get_shared_io_pool()
 {
-    if (_shared_io_pool == nullptr) {
-        _shared_io_pool = new ThreadPool(kAIOThreadsCount);
-    }
-    return *_shared_io_pool;
+    // the first submissions can be concurrent
+    static ThreadPool* shared_io_pool = new ThreadPool(kAIOThreadsCount);
+
+    return *shared_io_pool;
 }
 
 ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
-- 
2.43.0


From 88324170e39acdd2035ad885a55da67c67a95ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 14/55] fix: do not destroy the thread pool I/O scheduler while
 its last task uses it

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 0e92918..9efc5fc 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -30,11 +30,11 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // always take the lock: the last task might still be holding it (and be
+    // about to use the condition variable) although the counter is already null
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock,
+                         [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From 7d8d58333e84ef75117f23cba6b69361537eb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 15/55] fix: do not restart a counter that could not be read

---
 lib/utils/rocksdb_wrapper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..3bab70d 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -111,8 +111,14 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = 0;
+    } else {
+        // the current value is unknown: do not restart the counter
+        logger::logger()->error("Unable to read counter in the database\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
@@ -143,8 +149,14 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = default_value;
+    } else {
+        // the current value is unknown: do not restart the counter
+        logger::logger()->error("Unable to read counter in the database\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
-- 
2.43.0


From 8ef777b794ba27cb96ad398e35d717e174bb8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 16/55] fix: data race between the parallel maxflow
 computations of different components

---
 lib/tethys/tethys_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tethys/tethys_graph.cpp b/lib/tethys/tethys_graph.cpp
index 1fee707..2f81163 100644
--- a/lib/tethys/tethys_graph.cpp
+++ b/lib/tethys/tethys_graph.cpp
@@ -171,6 +171,12 @@ std::vector<EdgePtr> TethysGraph::find_source_sink_path(const size_t component,
 
         for (EdgePtr e_ptr : out_edges) {
             const Edge& e = edges[e_ptr];
+            // the edges from the source to the other components might be
+            // concurrently updated
+            if (v_ptr == kSourcePtr
+                && get_vertex(e.end).component != component) {
+                continue;
+            }
             if (e.flow > 0) {
                 const VertexPtr dest_ptr = e.end;
                 const Vertex&   dest     = get_vertex(dest_ptr);
-- 
2.43.0


From f8d141a0804c9ea8e7b56c9fbeccfae4b39ae7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 17/55] fix: the overload of deserialize() without deserializer
 cannot be used

---
 lib/include/sse/schemes/abstractio/kv_serializer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/abstractio/kv_serializer.hpp b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
index 3941647..20a710e 100644
--- a/lib/include/sse/schemes/abstractio/kv_serializer.hpp
+++ b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
@@ -87,8 +87,10 @@ template<class Key, class T, class InnerDeserializer>
 void deserialize(std::istream&                   input_stream,
                  std::function<void(Key k, T v)> callback)
 {
+    InnerDeserializer deserializer;
+
     deserialize<Key, T, InnerDeserializer>(
-        input_stream, callback, InnerDeserializer());
+        input_stream, callback, deserializer);
 }
 
 template<class Key, class T, class InnerDeserializer>
-- 
2.43.0


From ab8d2d094c24095327717693634bb3d93211aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 18/55] fix: iterate over concatenated containers when the
 first one is empty or adjacent

---
 .../sse/schemes/utils/concat_iterator.hpp     | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index f95fd9d..57827de 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -20,10 +20,7 @@ public:
     concat_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_container_1_end();
         return *this;
     }
 
@@ -38,7 +35,8 @@ public:
     }
     bool operator==(const concat_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_iterator& other) const
     {
@@ -53,6 +51,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_container_1_end();
     }
 
     concat_iterator(Container&         c1,
@@ -62,9 +61,19 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_container_1_end();
     }
 
 private:
+    // the end of the first container is the beginning of the second one
+    void skip_container_1_end()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     Container* container_1;
     Container* container_2;
 
@@ -93,10 +102,7 @@ public:
     concat_const_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_container_1_end();
         return *this;
     }
 
@@ -111,7 +117,8 @@ public:
     }
     bool operator==(const concat_const_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_const_iterator& other) const
     {
@@ -126,6 +133,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_container_1_end();
     }
 
     concat_const_iterator(const Container&   c1,
@@ -135,9 +143,19 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_container_1_end();
     }
 
 private:
+    // the end of the first container is the beginning of the second one
+    void skip_container_1_end()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     const Container* container_1;
     const Container* container_2;
 
-- 
2.43.0


From c578b279c443213031b808eb68875b937704b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 19/55] fix: hex_string() of arrays of elements wider than a
 byte

---
 lib/include/sse/schemes/utils/utils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/utils/utils.hpp b/lib/include/sse/schemes/utils/utils.hpp
index 2e86680..9784929 100644
--- a/lib/include/sse/schemes/utils/utils.hpp
+++ b/lib/include/sse/schemes/utils/utils.hpp
@@ -28,6 +28,7 @@
 #include <iomanip>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 namespace sse {
 namespace utility {
@@ -76,9 +77,10 @@ template<typename T, size_t N>
 std::string hex_string(const std::array<T, N>& in)
 {
     std::ostringstream out;
-    for (unsigned char c : in) {
+    for (T c : in) {
         out << std::hex << std::setw(2 * sizeof(T)) << std::setfill('0')
-            << static_cast<uint64_t>(c);
+            << static_cast<uint64_t>(
+                   static_cast<typename std::make_unsigned<T>::type>(c));
     }
     return out.str();
 }
-- 
2.43.0


From 84b12865a5d0ef3d9a86a74b007184cb71be03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 20/55] fix: an empty list hides the lists stored after it in a
 Tethys bucket

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..5470c7a 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -78,6 +78,11 @@ struct EncodeSeparateEncoder
         // spilled control values
         encoded_list_size = std::min(encoded_list_size, original_list_size);
 
+        if (encoded_list_size == 0) {
+            // an entry with a null length marks the end of the bucket
+            return 0;
+        }
+
         auto sublist_begin = values.begin();
         auto sublist_end   = values.end();
         // size_t sublist_begin = 0;
-- 
2.43.0


From 451068de1bced341af093ec0c2462e9dafd32780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 21/55] fix: out-of-bounds read at the end of a full Tethys
 bucket of small values

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 5470c7a..721c372 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -287,7 +287,8 @@ struct EncodeSeparateDecoder
         Key      list_key;
         uint64_t list_length;
 
-        while (offset < bucket.size()) {
+        // there might not be enough space left for the length of a list
+        while (offset + sizeof(list_length) <= bucket.size()) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
             offset += sizeof(list_length);
-- 
2.43.0


From 45f19db096479664306f1f3c676ac296e279069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 22/55] fix: a Tethys store without stash does not use the
 stash of a previous store

---
 lib/include/sse/schemes/tethys/tethys_store_builder.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
index 077e00e..c964887 100644
--- a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
@@ -5,6 +5,9 @@
 #include <sse/schemes/abstractio/kv_serializer.hpp>
 #include <sse/schemes/tethys/core_types.hpp>
 #include <sse/schemes/tethys/details/tethys_allocator.hpp>
+#include <sse/schemes/utils/utils.hpp>
+
+#include <cstdio>
 
 #include <array>
 #include <fstream>
@@ -301,6 +304,12 @@ void TethysStoreBuilder<PAGE_SIZE,
 
 
         stash_file.close();
+    } else if (utility::is_file(params.tethys_stash_path)) {
+        // the stash of a previous store does not belong to this one
+        if (std::remove(params.tethys_stash_path.c_str()) != 0) {
+            throw std::runtime_error("Unable to remove the previous stash "
+                                     + params.tethys_stash_path);
+        }
     }
 
     encoder.finish_tethys_encoding();
-- 
2.43.0


From 37b46b2ebab24c6ec5870b6d9c271863473e7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 23/55] fix: Tethys encoding of values wider than the list
 control fields

---
 .../sse/schemes/tethys/encoders/encode_separate.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 721c372..3b8d947 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -111,7 +111,7 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < kListLengthEntriesNumber * sizeof(T)) {
             std::fill(buffer + offset,
-                      buffer + kAdditionalKeyEntriesPerList * sizeof(T),
+                      buffer + kListLengthEntriesNumber * sizeof(T),
                       0x11);
             offset = kListLengthEntriesNumber * sizeof(T); // offset = 8
         }
@@ -127,7 +127,11 @@ struct EncodeSeparateEncoder
         if (offset < (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                          * sizeof(T)) {
             std::fill(
-                buffer + offset, buffer + kListControlValues * sizeof(T), 0x22);
+                buffer + offset,
+                buffer
+                    + (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
+                          * sizeof(T),
+                0x22);
             offset = (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                      * sizeof(T); // offset = 24
         }
@@ -291,7 +295,8 @@ struct EncodeSeparateDecoder
         while (offset + sizeof(list_length) <= bucket.size()) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
-            offset += sizeof(list_length);
+            // the length and the key are padded to a whole number of entries
+            offset += kListLengthEntriesNumber * sizeof(T);
 
             if (list_length == 0) {
                 // we are at the end of the bucket
@@ -300,7 +305,7 @@ struct EncodeSeparateDecoder
 
             // read the key of the current list
             memcpy(&list_key, bucket.data() + offset, sizeof(list_key));
-            offset += sizeof(list_key);
+            offset += kAdditionalKeyEntriesPerList * sizeof(T);
 
             if (list_key == key) {
                 // match on the key
-- 
2.43.0


From 99be9f2bdd8dcf0db048fe09f220b54f41ab079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 24/55] fix: do not destroy the stash of a Tethys store before
 its pending lookups end

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..1e03faa 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -107,10 +107,12 @@ private:
                                CallbackState*         state);
 
     using table_type = abstractio::awonvm_vector<payload_type, PAGE_SIZE>;
-    table_type table;
 
+    // the destruction of the table waits for the completion of the pending
+    // lookups, which use the stash: the table has to be destroyed first
     size_t                        table_size;
     std::map<Key, std::vector<T>> stash;
+    table_type                    table;
 };
 
 template<size_t PAGE_SIZE,
-- 
2.43.0


From f59ad0910f9b583a9134aa860484a47dcb01a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 25/55] fix: race between the completions of the two buckets of
 a Tethys lookup

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 1e03faa..c6fe0b8 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -336,15 +336,17 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
 {
     auto bucket_cb = [this, callback, state](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
-
-        if (completed == 1) {
+        // the two buckets can be delivered by different threads: only decode
+        // them once both have been stored
+        if (state->arrival_counter.fetch_add(1) == 0) {
             state->index_0  = index;
             state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
+        } else {
             state->index_1  = index;
             state->bucket_1 = std::move(bucket);
+        }
 
+        if (state->completion_counter.fetch_add(1) + 1 == 2) {
 
             std::vector<T> stash_res;
 
@@ -390,6 +392,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          arrival_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder                  decoder;
 
@@ -423,6 +426,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          arrival_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder*                 decoder;
 
-- 
2.43.0


From 6d5ed36b8cdf76d7300a945956b6a62d87de0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 26/55] fix: report the insertions that do not fit in a Cuckoo
 table and keep the other elements

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp |  6 ++----
 lib/oceanus/cuckoo.cpp                     | 11 +++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 11841d3..e4a3b3a 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -62,8 +62,6 @@ private:
     details::CuckooAllocator                           allocator;
     abstractio::awonvm_vector<payload_type, PAGE_SIZE> data;
 
-    std::vector<size_t> spilled_data;
-
     size_t n_elements;
     bool   is_committed{false};
 };
@@ -172,8 +170,8 @@ void CuckooBuilder<PAGE_SIZE,
     size_t spill = allocator.insert(cuckoo_key, value_ptr);
 
     if (!details::CuckooAllocator::is_empty_placeholder(spill)) {
-        std::cerr << "Spill!\n";
-        spilled_data.push_back(spill);
+        // the element cannot be retrieved from the table
+        throw std::runtime_error("No room left in the Cuckoo table");
     }
 }
 
diff --git a/lib/oceanus/cuckoo.cpp b/lib/oceanus/cuckoo.cpp
index 5bab12d..d713eb1 100644
--- a/lib/oceanus/cuckoo.cpp
+++ b/lib/oceanus/cuckoo.cpp
@@ -23,6 +23,7 @@ size_t CuckooAllocator::insert(const CuckooKey& key, size_t index)
 
     unsigned                                 table_index = 0;
     std::array<std::vector<CuckooValue>*, 2> tables      = {&table_0, &table_1};
+    std::vector<size_t>                      visited_locations;
 
     // search for an empty space
     for (size_t depth = 0; (depth < max_search_depth)
@@ -31,6 +32,7 @@ size_t CuckooAllocator::insert(const CuckooKey& key, size_t index)
         size_t loc = value.key.h[table_index] % cuckoo_table_size;
 
         swap(value, (*tables[table_index])[loc]);
+        visited_locations.push_back(loc);
 
         // go to the other table for the next iteration:
         // if the bucket was empty, the loop will stop,
@@ -39,6 +41,15 @@ size_t CuckooAllocator::insert(const CuckooKey& key, size_t index)
         table_index = (table_index == 0) ? 1 : 0;
     }
 
+    if (!is_empty_placeholder(value.value_index)) {
+        // no room was found: put the displaced elements back, so that none of
+        // them is lost
+        while (!visited_locations.empty()) {
+            table_index = (table_index == 0) ? 1 : 0;
+            swap(value, (*tables[table_index])[visited_locations.back()]);
+            visited_locations.pop_back();
+        }
+    }
 
     return value.value_index;
 }
-- 
2.43.0


From b07e6d35c7ffddabf62e855d27d661e35d91bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 27/55] fix: do not commit a moved-from CuckooBuilder

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index e4a3b3a..28829a5 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -48,7 +48,14 @@ public:
     using param_type   = CuckooBuilderParam;
 
     explicit CuckooBuilder(CuckooBuilderParam p);
-    CuckooBuilder(CuckooBuilder&&) noexcept = default;
+    CuckooBuilder(CuckooBuilder&& cb) noexcept
+        : params(std::move(cb.params)), allocator(std::move(cb.allocator)),
+          data(std::move(cb.data)), n_elements(cb.n_elements),
+          is_committed(cb.is_committed)
+    {
+        // the moved-from builder has nothing to commit anymore
+        cb.is_committed = true;
+    }
 
     ~CuckooBuilder();
 
-- 
2.43.0


From 90d0a838330c938bb85cc99f612d712cd349c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 28/55] fix: do not return the padding of the complete blocks
 of Pluto

---
 lib/include/sse/schemes/pluto/pluto_server.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_server.hpp b/lib/include/sse/schemes/pluto/pluto_server.hpp
index ac69fe1..f915f6d 100644
--- a/lib/include/sse/schemes/pluto/pluto_server.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_server.hpp
@@ -60,9 +60,16 @@ auto PlutoServer<Params>::search(const SearchRequest& search_request)
         try {
             typename Params::ht_value_type v = hash_table.get(key);
 
-            res.complete_lists.reserve(res.complete_lists.size() + v.size());
-            res.complete_lists.insert(
-                res.complete_lists.end(), v.begin(), v.end());
+            // the values of the hash table can be larger than the blocks
+            static_assert(
+                Params::kPlutoListLength
+                    <= std::tuple_size<typename Params::ht_value_type>::value,
+                "The hash table's values are too small");
+            res.complete_lists.reserve(res.complete_lists.size()
+                                       + Params::kPlutoListLength);
+            res.complete_lists.insert(res.complete_lists.end(),
+                                      v.begin(),
+                                      v.begin() + Params::kPlutoListLength);
         } catch (const std::out_of_range& e) {
             break;
         }
-- 
2.43.0


From 3ccedb61e85dbafbf78c9d145a6616217fa7924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 29/55] fix: count the first match in
 DianaClient::get_match_count

The counter of a keyword is the index of its last leaf. As Janus numbers its
punctures with this count, its two first punctures had the same number.
---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..c344924 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter is the position of the last match
+    return (found) ? kw_counter + 1 : 0;
 }
 
 template<typename T>
-- 
2.43.0


From 465f674a0358c3da2a310e5ea23fc5e848778930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 30/55] fix: initialise the search request for a keyword
 without updates

---
 lib/sophos/sophos_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sophos/sophos_client.cpp b/lib/sophos/sophos_client.cpp
index 425b876..1018a37 100644
--- a/lib/sophos/sophos_client.cpp
+++ b/lib/sophos/sophos_client.cpp
@@ -84,7 +84,7 @@ SearchRequest SophosClient::search_request(const std::string& keyword) const
 {
     uint32_t      kw_counter;
     bool          found;
-    SearchRequest req;
+    SearchRequest req{};
     req.add_count = 0;
 
     std::string seed = get_keyword_index(keyword);
-- 
2.43.0


From d328109ae6ed2dcd620591b8e7fdeacb0e32fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 31/55] fix: remove the directory of a Sophos client whose
 set-up failed

---
 lib/sophos/sophos_client_runner.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 9c8ad43..19b473c 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -217,13 +217,20 @@ SophosClientRunner::SophosClientRunner(
             throw std::runtime_error(path + ": unable to create directory");
         }
 
-        client_ = init_client_in_directory(path);
-
-        // send a setup message to the server
-        bool success = send_setup();
-
-        if (!success) {
-            throw std::runtime_error("Unsuccessful server setup");
+        try {
+            client_ = init_client_in_directory(path);
+
+            // send a setup message to the server
+            bool success = send_setup();
+
+            if (!success) {
+                throw std::runtime_error("Unsuccessful server setup");
+            }
+        } catch (...) {
+            // do not leave behind a client whose keys are unknown to the server
+            client_.reset();
+            utility::remove_directory(path);
+            throw;
         }
     }
 }
-- 
2.43.0


From ff48dc6843192f4e20933c55ea64dedba3a0e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 32/55] fix: make the updates of RocksDBCounter atomic

---
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp | 3 +++
 lib/utils/rocksdb_wrapper.cpp                     | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index fcc99d4..2d49bfd 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -31,6 +31,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace sophos {
@@ -279,6 +280,8 @@ public:
 
 private:
     rocksdb::DB* db_;
+    // makes the read-modify-write operations atomic
+    std::mutex update_mtx_;
 };
 
 
diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 3bab70d..d49b255 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -100,6 +100,8 @@ bool RocksDBCounter::get(const std::string& key, uint32_t& val) const
 
 bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     std::string data;
 
     rocksdb::Status s = db_->Get(rocksdb::ReadOptions(), key, &data);
@@ -139,6 +141,8 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 
 bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     std::string data;
     uint32_t    val;
 
@@ -177,6 +181,8 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 
 bool RocksDBCounter::set(const std::string& key, uint32_t val)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
 
     rocksdb::Status s = db_->Put(rocksdb::WriteOptions(), key, k_v);
@@ -196,6 +202,8 @@ bool RocksDBCounter::set(const std::string& key, uint32_t val)
 
 bool RocksDBCounter::remove_key(const std::string& key)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     rocksdb::Status s = db_->Delete(rocksdb::WriteOptions(), key);
 
     return s.ok();
-- 
2.43.0


From 0bdcbceb958e4cad8511eca158492587ed4c95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 33/55] fix: refuse messages with fields of the wrong size in
 the Sophos server

---
 lib/sophos/sophos_server_runner.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 46b9669..9762bc9 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -40,6 +40,18 @@ namespace sophos {
 const char* SophosImpl::pk_file        = "tdp_pk.key";
 const char* SophosImpl::pairs_map_file = "pairs.dat";
 
+// messages come from the network: their fields can have any size
+static bool is_well_formed(const SearchRequestMessage& mes)
+{
+    return mes.search_token().size() == kSearchTokenSize
+           && mes.derivation_key().size() == kDerivationKeySize;
+}
+
+static bool is_well_formed(const UpdateRequestMessage& mes)
+{
+    return mes.update_token().size() == kUpdateTokenSize;
+}
+
 SophosImpl::SophosImpl(std::string path)
     : storage_path_(std::move(path)), async_search_(true)
 {
@@ -169,6 +181,10 @@ grpc::Status SophosImpl::sync_search(
                             "The server is not set up");
     }
 
+    if (!is_well_formed(*mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed search request");
+    }
+
     logger::logger()->trace("Start synchronous search...");
     std::list<uint64_t> res_list;
 
@@ -205,6 +221,10 @@ grpc::Status SophosImpl::async_search(
                             "The server is not set up");
     }
 
+    if (!is_well_formed(*mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed search request");
+    }
+
     logger::logger()->trace("Start asynchronous search...");
     auto req = message_to_request(mes);
 
@@ -260,6 +280,10 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(*mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed update request");
+    }
+
     logger::logger()->trace("Start updating");
 
     server_->insert(message_to_request(mes));
@@ -284,6 +308,10 @@ grpc::Status SophosImpl::bulk_insert(
     sophos::UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!is_well_formed(mes)) {
+            return grpc::Status(grpc::INVALID_ARGUMENT,
+                                "Malformed update request");
+        }
         server_->insert(message_to_request(&mes));
     }
 
-- 
2.43.0


From 0abbcab79555a97c70df026fa055dd48e3592f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 34/55] fix: undo a set-up of the Sophos server which failed
 midway

---
 lib/sophos/sophos_server_runner.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 9762bc9..0a20ccd 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -135,6 +135,7 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
                                 + std::string(err.what()));
 
         server_.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "Unable to create the server's core. Exception: "
                                 + std::string(err.what()));
@@ -144,16 +145,19 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
     std::string pk_path = storage_path_ + "/" + pk_file;
 
     std::ofstream pk_out(pk_path.c_str());
-    if (!pk_out.is_open()) {
+    pk_out << message->public_key();
+    pk_out.close();
+    if (!pk_out) {
         // error
 
         logger::logger()->error("Error when writing the public key");
 
+        // the server could not be restarted: undo the setup
+        server_.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::PERMISSION_DENIED,
                             "Unable to write the public key to disk");
     }
-    pk_out << message->public_key();
-    pk_out.close();
 
     logger::logger()->trace("Successful setup");
 
-- 
2.43.0


From b610a3d412d6d07d2142773a226351d847afd5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 35/55] fix: notice keys of the Sophos client which could not
 be written

---
 lib/sophos/sophos_client_runner.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 19b473c..921dd73 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -84,6 +84,9 @@ static std::unique_ptr<SophosClient> init_client_in_directory(
 
     sk_out << tdp.private_key();
     sk_out.close();
+    if (!sk_out) {
+        throw std::runtime_error(sk_path + ": unable to write the secret key");
+    }
 
     std::ofstream master_key_out(master_key_path.c_str());
     if (!master_key_out.is_open()) {
@@ -93,6 +96,10 @@ static std::unique_ptr<SophosClient> init_client_in_directory(
     master_key_out << std::string(derivation_master_key.begin(),
                                   derivation_master_key.end());
     master_key_out.close();
+    if (!master_key_out) {
+        throw std::runtime_error(
+            master_key_path + ": unable to write the master derivation key");
+    }
 
     std::ofstream rsa_prg_key_out(rsa_prg_key_path.c_str());
     if (!rsa_prg_key_out.is_open()) {
@@ -101,6 +108,10 @@ static std::unique_ptr<SophosClient> init_client_in_directory(
     }
     rsa_prg_key_out << std::string(rsa_prg_key.begin(), rsa_prg_key.end());
     rsa_prg_key_out.close();
+    if (!rsa_prg_key_out) {
+        throw std::runtime_error(rsa_prg_key_path
+                                 + ": unable to write the rsa prg key");
+    }
 
 
     auto c_ptr = std::unique_ptr<SophosClient>(new SophosClient(
-- 
2.43.0


From d4848fb216d927b287e71dbc89394af794cacbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 36/55] fix: do not send a zero for each missing result in the
 synchronous search of Diana

---
 lib/diana/server_runner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index fcb6d42..c9cfc29 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -33,6 +33,7 @@
 
 #include <atomic>
 #include <fstream>
+#include <list>
 #include <thread>
 #include <utility>
 
@@ -214,7 +215,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
 
-    std::vector<uint64_t> res_list(req.add_count);
+    std::list<index_type> res_list;
 
     logger::logger()->trace("{} expected matches", req.add_count);
 
@@ -223,7 +224,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
     } else {
         {
             SearchBenchmark bench("Diana synchronous search");
-            server_->search_parallel(req, 8, res_list);
+            res_list = server_->search_parallel(req, 8);
             bench.set_count(res_list.size());
         }
         for (auto& i : res_list) {
-- 
2.43.0


From 7f31c9514f817b954ddbf577dbccd8761efd9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 37/55] fix: undo a set-up of the Diana server which failed
 midway

---
 lib/diana/server_runner.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index c9cfc29..e9bc290 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -116,6 +116,13 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "The server was already set up");
     }
 
+    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
+        logger::logger()->error("Invalid wrapping key size");
+
+        return grpc::Status(grpc::INVALID_ARGUMENT,
+                            "Invalid transmitted wrapping key size");
+    }
+
     // create the content directory but first check that nothing is already
     // there
 
@@ -149,6 +156,7 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                                 + std::string(err.what()));
 
         server_.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "Unable to create the server's core.");
     }
@@ -158,25 +166,20 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
     std::string wrapping_key_path = storage_path_ + "/" + wrapping_key_file;
 
     std::ofstream wrapping_key_out(wrapping_key_path.c_str());
-    if (!wrapping_key_out.is_open()) {
+    wrapping_key_out << message->wrapping_key();
+    wrapping_key_out.close();
+    if (!wrapping_key_out) {
         // error
 
         logger::logger()->error("Error when writing the wrapping key");
 
+        // the server could not be restarted: undo the setup
+        server_.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::PERMISSION_DENIED,
                             "Unable to write the wrapping key to disk");
     }
 
-    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
-        logger::logger()->error("Invalid wrapping key size");
-
-        return grpc::Status(grpc::INVALID_ARGUMENT,
-                            "Invalid transmitted wrapping key size");
-    }
-
-    wrapping_key_out << message->wrapping_key();
-    wrapping_key_out.close();
-
     std::array<uint8_t, crypto::Wrapper::kKeySize> wrapping_key;
     std::copy(message->wrapping_key().begin(),
               message->wrapping_key().end(),
-- 
2.43.0


From a985eec307e18dbaa6d7181d9027a9da49e9d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 38/55] fix: refuse messages with fields of the wrong size in
 the Diana server

---
 lib/diana/server_runner.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index e9bc290..4c90d12 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -44,6 +44,18 @@ namespace diana {
 const char* DianaImpl::pairs_map_file    = "pairs.dat";
 const char* DianaImpl::wrapping_key_file = "wrapping.key";
 
+// messages come from the network: their fields can have any size
+static bool is_well_formed(const SearchRequestMessage& mes)
+{
+    return mes.kw_token().size() == std::tuple_size<keyword_token_type>::value;
+}
+
+static bool is_well_formed(const UpdateRequestMessage& mes)
+{
+    return mes.update_token().size()
+           == std::tuple_size<update_token_type>::value;
+}
+
 DianaImpl::DianaImpl(std::string path)
     : storage_path_(std::move(path)), async_search_(true)
 {
@@ -214,6 +226,10 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(*mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed search request");
+    }
+
     logger::logger()->trace("Start searching keyword ...");
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
@@ -255,6 +271,10 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(*mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed search request");
+    }
+
     logger::logger()->trace("Start searching keyword...");
 
     std::atomic_uint res_size(0);
@@ -311,6 +331,10 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(*mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed update request");
+    }
+
     logger::logger()->trace("Updating ...");
 
     server_->insert(message_to_request(mes));
@@ -336,6 +360,10 @@ grpc::Status DianaImpl::bulk_insert(
     UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!is_well_formed(mes)) {
+            return grpc::Status(grpc::INVALID_ARGUMENT,
+                                "Malformed update request");
+        }
         server_->insert(message_to_request(&mes));
     }
 
-- 
2.43.0


From 0853ad88180e627d660f00c9b5e0e473e130360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 39/55] fix: remove the directory of a Diana client whose
 set-up failed

---
 lib/diana/client_runner.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 0b47c1a..5f522f6 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -232,16 +232,23 @@ DianaClientRunner::DianaClientRunner(
         }
 
         std::array<uint8_t, crypto::Wrapper::kKeySize> wrapper_key;
-        client_ = init_client_in_directory(path, wrapper_key);
-
-        // send a setup message to the server
-        bool success = send_setup(wrapper_key);
-
-        token_wrapper_.reset(new crypto::Wrapper(
-            crypto::Key<crypto::Wrapper::kKeySize>(wrapper_key.data())));
-
-        if (!success) {
-            throw std::runtime_error("Unsuccessful server setup");
+        try {
+            client_ = init_client_in_directory(path, wrapper_key);
+
+            // send a setup message to the server
+            bool success = send_setup(wrapper_key);
+
+            token_wrapper_.reset(new crypto::Wrapper(
+                crypto::Key<crypto::Wrapper::kKeySize>(wrapper_key.data())));
+
+            if (!success) {
+                throw std::runtime_error("Unsuccessful server setup");
+            }
+        } catch (...) {
+            // do not leave behind a client whose keys are unknown to the server
+            client_.reset();
+            utility::remove_directory(path);
+            throw;
         }
     }
 }
-- 
2.43.0


From a3055c96015129737370b2487f4b5dbeba54b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 40/55] fix: notice keys of the Diana client which could not be
 written

---
 lib/diana/client_runner.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 5f522f6..ec97ccd 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -180,6 +180,10 @@ std::unique_ptr<DC> init_client_in_directory(
     master_key_out << std::string(master_derivation_key.begin(),
                                   master_derivation_key.end());
     master_key_out.close();
+    if (!master_key_out) {
+        throw std::runtime_error(
+            master_key_path + ": unable to write the master derivation key");
+    }
 
     std::ofstream kw_token_key_out(kw_token_master_key_path.c_str());
     if (!kw_token_key_out.is_open()) {
@@ -191,6 +195,10 @@ std::unique_ptr<DC> init_client_in_directory(
     kw_token_key_out << std::string(kw_token_master_key.begin(),
                                     kw_token_master_key.end());
     kw_token_key_out.close();
+    if (!kw_token_key_out) {
+        throw std::runtime_error(
+            kw_token_master_key_path + ": unable to write the master derivation key");
+    }
 
     std::ofstream wrapping_key_out(wrapping_key_path.c_str());
     if (!wrapping_key_out.is_open()) {
@@ -200,6 +208,10 @@ std::unique_ptr<DC> init_client_in_directory(
 
     wrapping_key_out << std::string(wrapping_key.begin(), wrapping_key.end());
     wrapping_key_out.close();
+    if (!wrapping_key_out) {
+        throw std::runtime_error(
+            wrapping_key_path + ": unable to write the master derivation key");
+    }
 
     return std::unique_ptr<DC>(
         new DC(counter_map_path,
-- 
2.43.0


From 62d4868ddcc89ed3582de48fd86792f6c3985808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 41/55] fix: protect the set-up of the Sophos server from
 concurrent calls

---
 lib/sophos/sophos_server_runner.cpp         | 16 +++++++++++++---
 lib/sophos/sophos_server_runner_private.hpp |  2 ++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 0a20ccd..49f3ab4 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -93,6 +93,8 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
 {
     logger::logger()->trace("Setup started");
 
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     if (server_) {
         // problem, the server is already set up
         logger::logger()->error(
@@ -164,6 +166,14 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
     return grpc::Status::OK;
 }
 
+bool SophosImpl::is_set_up()
+{
+    // the setup can be running in another thread
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
+    return server_ != nullptr;
+}
+
 grpc::Status SophosImpl::search(grpc::ServerContext*                context,
                                 const sophos::SearchRequestMessage* mes,
                                 grpc::ServerWriter<sophos::SearchReply>* writer)
@@ -179,7 +189,7 @@ grpc::Status SophosImpl::sync_search(
     const sophos::SearchRequestMessage*          mes,
     grpc::ServerWriter<sophos::SearchReply>*     writer)
 {
-    if (!server_) {
+    if (!is_set_up()) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -219,7 +229,7 @@ grpc::Status SophosImpl::async_search(
     const sophos::SearchRequestMessage*          mes,
     grpc::ServerWriter<sophos::SearchReply>*     writer)
 {
-    if (!server_) {
+    if (!is_set_up()) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -301,7 +311,7 @@ grpc::Status SophosImpl::bulk_insert(
     grpc::ServerReader<sophos::UpdateRequestMessage>* reader,
     __attribute__((unused)) google::protobuf::Empty*  e)
 {
-    if (!server_) {
+    if (!is_set_up()) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
diff --git a/lib/sophos/sophos_server_runner_private.hpp b/lib/sophos/sophos_server_runner_private.hpp
index 08718fa..69ad50b 100644
--- a/lib/sophos/sophos_server_runner_private.hpp
+++ b/lib/sophos/sophos_server_runner_private.hpp
@@ -72,6 +72,8 @@ public:
 
 
 private:
+    bool is_set_up();
+
     static const char* pk_file;
     static const char* pairs_map_file;
 
-- 
2.43.0


From dcd1487c566922a882eae1886ed1d465652c4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 42/55] fix: protect the set-up of the Diana server from
 concurrent calls

---
 lib/diana/server_runner.cpp         | 16 +++++++++++++---
 lib/diana/server_runner_private.hpp |  2 ++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 4c90d12..7b6f555 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -119,6 +119,8 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
 {
     logger::logger()->trace("Start server setup");
 
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     if (server_) {
         // problem, the server is already set up
         logger::logger()->error(
@@ -205,6 +207,14 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
     return grpc::Status::OK;
 }
 
+bool DianaImpl::is_set_up()
+{
+    // the setup can be running in another thread
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
+    return server_ != nullptr;
+}
+
 grpc::Status DianaImpl::search(grpc::ServerContext*             context,
                                const SearchRequestMessage*      mes,
                                grpc::ServerWriter<SearchReply>* writer)
@@ -220,7 +230,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
                                     const SearchRequestMessage*      mes,
                                     grpc::ServerWriter<SearchReply>* writer)
 {
-    if (!server_) {
+    if (!is_set_up()) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -265,7 +275,7 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
                                      const SearchRequestMessage*      mes,
                                      grpc::ServerWriter<SearchReply>* writer)
 {
-    if (!server_) {
+    if (!is_set_up()) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -349,7 +359,7 @@ grpc::Status DianaImpl::bulk_insert(
     grpc::ServerReader<UpdateRequestMessage>*        reader,
     __attribute__((unused)) google::protobuf::Empty* e)
 {
-    if (!server_) {
+    if (!is_set_up()) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
diff --git a/lib/diana/server_runner_private.hpp b/lib/diana/server_runner_private.hpp
index d8a6144..b9dd039 100644
--- a/lib/diana/server_runner_private.hpp
+++ b/lib/diana/server_runner_private.hpp
@@ -80,6 +80,8 @@ public:
     void flush_server_storage();
 
 private:
+    bool is_set_up();
+
     static const char* pairs_map_file;
     static const char* wrapping_key_file;
 
-- 
2.43.0


From 02a15b4a1083f54b4419ff6266dcd82d3aca8482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 43/55] fix: name the random groups of 100 documents after
 their size

---
 lib/utils/db_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index fff8b50..ea098c8 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -278,7 +278,7 @@ static void generation_job(
                 if (group_rand_10_2[g] < size_group_2) {
                     group_rand_10_2[g]++;
                     kw = kKeywordRand10GroupBase;
-                    kw.append("3_").append(id_string).append("_").append(
+                    kw.append("2_").append(id_string).append("_").append(
                         std::to_string(g));
                     insertions.push_back(kw);
                 }
-- 
2.43.0


From e23315fb3e8450429a50165936588e045d542dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 44/55] fix: data race on the creation and replacement of the
 shared logger

---
 lib/utils/logger.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..e920ef7 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,19 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
+// protects shared_logger_, which is used by all the threads
+static std::mutex shared_logger_mtx_;
 
 std::shared_ptr<spdlog::logger> logger()
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mtx_);
+
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +50,8 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mtx_);
+
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0


From 737f514d2dc64582094c33f5c3c8c4f8591f8b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 45/55] fix: silencing the logger twice throws an exception

---
 lib/utils/logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index e920ef7..9903553 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -55,8 +55,9 @@ void set_logger(const std::shared_ptr<spdlog::logger>& logger)
     if (logger) {
         shared_logger_ = logger;
     } else {
-        shared_logger_
-            = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        // not registered by spdlog, where the name would be taken the next time
+        shared_logger_ = std::make_shared<spdlog::logger>(
+            "null_logger", std::make_shared<spdlog::sinks::null_sink_mt>());
     }
 }
 
-- 
2.43.0


From 57c33537eab6fc254c6c850ada2eb6f942c167e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 46/55] fix: the first use of the logger throws when the
 application has a console logger

---
 lib/utils/logger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 9903553..1ba6ff4 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -43,7 +43,10 @@ std::shared_ptr<spdlog::logger> logger()
 
     if (!shared_logger_) {
         // initialize the logger
-        shared_logger_ = spdlog::stderr_color_mt("console");
+        shared_logger_ = spdlog::get("console");
+        if (!shared_logger_) {
+            shared_logger_ = spdlog::stderr_color_mt("console");
+        }
     }
     return shared_logger_;
 }
-- 
2.43.0


From bbc7ca777a3878524c8c64647b5bc568e39517c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 47/55] fix: changing the benchmark file throws an exception

---
 lib/utils/logger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 1ba6ff4..f8400dc 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -74,6 +74,8 @@ std::shared_ptr<spdlog::logger> Benchmark::benchmark_logger_(nullptr);
 
 void Benchmark::set_benchmark_file(const std::string& path)
 {
+    // the name may be taken by the logger of the previous file
+    spdlog::drop("benchmark");
     benchmark_logger_
         = spdlog::basic_logger_mt<spdlog::async_factory>("benchmark", path);
     benchmark_logger_->set_level(spdlog::level::trace);
-- 
2.43.0


From 0920f0454a55bcb6e97561a14618e57c72ecb269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 48/55] fix: a benchmark which was stopped went on until its
 destruction

---
 lib/utils/logger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index f8400dc..158c2c4 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -93,15 +93,17 @@ Benchmark::Benchmark(std::string format)
 void Benchmark::stop()
 {
     if (!stopped_) {
-        end_ = std::chrono::high_resolution_clock::now();
+        end_     = std::chrono::high_resolution_clock::now();
+        stopped_ = true;
     }
 }
 
 void Benchmark::stop(size_t count)
 {
     if (!stopped_) {
-        end_   = std::chrono::high_resolution_clock::now();
-        count_ = count;
+        end_     = std::chrono::high_resolution_clock::now();
+        count_   = count;
+        stopped_ = true;
     }
 }
 
-- 
2.43.0


From 304c3071cd3e713150e6c706777dd0edcfb2b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 49/55] fix: a search benchmark whose message has braces is not
 recorded

---
 lib/utils/logger.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 158c2c4..67dbd3c 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -131,8 +131,21 @@ constexpr auto search_JSON_end
     = "\", \"items\" : {0}, \"time\" : {1}, \"time/item\" : {2} }}";
 
 // cppcheck-suppress passedByValue
+// the message is a part of a format string
+static std::string escape_braces(const std::string& message)
+{
+    std::string escaped;
+    for (char c : message) {
+        if (c == '{' || c == '}') {
+            escaped.push_back(c);
+        }
+        escaped.push_back(c);
+    }
+    return escaped;
+}
+
 SearchBenchmark::SearchBenchmark(std::string message)
-    : Benchmark(search_JSON_begin + std::move(message) + search_JSON_end)
+    : Benchmark(search_JSON_begin + escape_braces(message) + search_JSON_end)
 {
 }
 } // namespace sse
\ No newline at end of file
-- 
2.43.0


From 697a7b24babfd5f0ac49e49f0d686e2c1cba53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 50/55] fix: the Diana client connects to the port of the Diana
 server

---
 src/diana_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diana_client.cpp b/src/diana_client.cpp
index 3e39482..72bde0e 100644
--- a/src/diana_client.cpp
+++ b/src/diana_client.cpp
@@ -92,7 +92,7 @@ int main(int argc, char** argv)
     std::unique_ptr<sse::diana::DianaClientRunner> client_runner;
 
     std::shared_ptr<grpc::Channel> channel(grpc::CreateChannel(
-        "localhost:4240", grpc::InsecureChannelCredentials()));
+        "localhost:4241", grpc::InsecureChannelCredentials()));
     client_runner.reset(new sse::diana::DianaClientRunner(channel, client_db));
 
     for (std::string& path : input_files) {
-- 
2.43.0


From c1e93e6fad6884c4c447e9a5fcc2c99892b904cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 51/55] fix: the Diana client loses the last randomly generated
 entries

---
 src/diana_client.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/diana_client.cpp b/src/diana_client.cpp
index 72bde0e..869141b 100644
--- a/src/diana_client.cpp
+++ b/src/diana_client.cpp
@@ -19,9 +19,6 @@
 #include <list>
 #include <mutex>
 
-__thread std::list<std::pair<std::string, uint64_t>>* g_diana_buffer_list_
-    = nullptr;
-
 int main(int argc, char** argv)
 {
     sse::logger::set_logging_level(spdlog::level::info);
@@ -105,22 +102,32 @@ int main(int argc, char** argv)
         sse::logger::logger()->info("Randomly generating database with {} docs",
                                     rnd_entries_count);
 
-        auto gen_callback = [&client_runner](const std::string& s, size_t i) {
-            if (g_diana_buffer_list_ == nullptr) {
-                g_diana_buffer_list_
-                    = new std::list<std::pair<std::string, uint64_t>>();
-            }
-            g_diana_buffer_list_->push_back(std::make_pair(s, i));
+        using buffer_type = std::list<std::pair<std::string, uint64_t>>;
+        std::mutex  buffer_mtx;
+        buffer_type buffer;
+
+        auto gen_callback = [&client_runner, &buffer_mtx, &buffer](
+                                const std::string& s, size_t i) {
+            buffer_type full_buffer;
+            {
+                std::lock_guard<std::mutex> lock(buffer_mtx);
+                buffer.push_back(std::make_pair(s, i));
 
-            if (g_diana_buffer_list_->size() >= 50) {
-                client_runner->insert_in_session(*g_diana_buffer_list_);
+                if (buffer.size() >= 50) {
+                    full_buffer.swap(buffer);
+                }
+            }
 
-                g_diana_buffer_list_->clear();
+            if (!full_buffer.empty()) {
+                client_runner->insert_in_session(full_buffer);
             }
         };
 
         client_runner->start_update_session();
         sse::sophos::gen_db(rnd_entries_count, gen_callback);
+
+        // the last entries
+        client_runner->insert_in_session(buffer);
         client_runner->end_update_session();
     }
 
-- 
2.43.0


From b27081ab2fb9a67d8b3b9989a868525fd7d2f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:21 +0000
Subject: [PATCH 52/55] fix: a partly refused batch of reads freed the buffers
 of the accepted ones

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 61370b9..f8ed85f 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -502,8 +502,9 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     int ret = m_io_scheduler->submit_preads(submissions);
 
     if (ret < 0 || static_cast<size_t>(ret) != submissions.size()) {
-        for (auto& sub : submissions) {
-            free(sub.buf);
+        // the buffers of the accepted requests belong to their callbacks
+        for (size_t i = ret > 0 ? ret : 0; i < submissions.size(); i++) {
+            free(submissions[i].buf);
         }
 
         throw std::runtime_error(
-- 
2.43.0


From 4b2f0c95f7551eaa97e7a28d8ebce6942e1b164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:34 +0000
Subject: [PATCH 53/55] fix: choosing the kind of search raced with the
 searches

The Sophos and Diana servers listen before the program sets the search mode:
make the flag atomic.
---
 lib/diana/server_runner_private.hpp         | 3 ++-
 lib/sophos/sophos_server_runner_private.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/diana/server_runner_private.hpp b/lib/diana/server_runner_private.hpp
index b9dd039..80c7fb7 100644
--- a/lib/diana/server_runner_private.hpp
+++ b/lib/diana/server_runner_private.hpp
@@ -29,6 +29,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -92,7 +93,7 @@ private:
 
     std::mutex update_mtx_;
 
-    bool async_search_;
+    std::atomic<bool> async_search_;
 };
 
 SearchRequest message_to_request(
diff --git a/lib/sophos/sophos_server_runner_private.hpp b/lib/sophos/sophos_server_runner_private.hpp
index 69ad50b..68183d5 100644
--- a/lib/sophos/sophos_server_runner_private.hpp
+++ b/lib/sophos/sophos_server_runner_private.hpp
@@ -29,6 +29,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -82,7 +83,7 @@ private:
 
     std::mutex update_mtx_;
 
-    bool async_search_;
+    std::atomic<bool> async_search_;
 };
 
 SearchRequest message_to_request(const SearchRequestMessage* mes);
-- 
2.43.0


From 7695b7e5841f54856f349448db8365e7dbe393e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:04 +0000
Subject: [PATCH 54/55] fix: a file which cannot be loaded left the update
 session open

When the parser throws, end the session that load_inverted_index() started:
otherwise the next insertions go through it and are lost with the client.
---
 lib/diana/client_runner.cpp         | 8 ++++++++
 lib/sophos/sophos_client_runner.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index ec97ccd..d9806ed 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -454,6 +454,8 @@ void DianaClientRunner::end_update_session()
 
 bool DianaClientRunner::load_inverted_index(const std::string& path)
 {
+    bool own_session = false;
+
     try {
         dbparser::DBParserJSON parser(path.c_str());
         ThreadPool             pool(std::thread::hardware_concurrency());
@@ -488,6 +490,8 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 
         parser.addCallbackList(add_list_callback);
 
+        own_session = !bulk_update_state_.writer;
+
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
 
@@ -502,6 +506,10 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": \n"
                                 + e.what());
+        // do not leave the session open: the next updates would go through it
+        if (own_session && bulk_update_state_.writer) {
+            end_update_session();
+        }
         return false;
     }
     return false;
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 921dd73..165c2a5 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -400,6 +400,8 @@ void SophosClientRunner::end_update_session()
 
 bool SophosClientRunner::load_inverted_index(const std::string& path)
 {
+    bool own_session = false;
+
     try {
         dbparser::DBParserJSON parser(path.c_str());
         ThreadPool             pool(std::thread::hardware_concurrency());
@@ -427,6 +429,8 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
 
         parser.addCallbackList(add_list_callback);
 
+        own_session = !bulk_update_state_.writer;
+
         // De-activate clang-tidy because of a false positive in gRPC
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
@@ -442,6 +446,10 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": "
                                 + e.what());
+        // do not leave the session open: the next updates would go through it
+        if (own_session && bulk_update_state_.writer) {
+            end_update_session();
+        }
         return false;
     }
     return false;
-- 
2.43.0


From e279e27318f8af21d1613f4380a6094a6a5bb269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:08 +0000
Subject: [PATCH 55/55] fix: a client destroyed during an update session lost
 its last updates

---
 lib/diana/client_runner.cpp         | 8 +++++---
 lib/sophos/sophos_client_runner.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index d9806ed..cf4bb73 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -265,11 +265,13 @@ DianaClientRunner::DianaClientRunner(
     }
 }
 
-// as we forward-declare Diana::Stub, we cannot use the default destructor
-// NOLINTNEXTLINE(modernize-use-equals-default)
 DianaClientRunner::~DianaClientRunner()
 {
-    // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
+    // do not cancel a running update session: its last updates would be lost
+    if (bulk_update_state_.writer) {
+        // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
+        end_update_session();
+    }
 }
 
 bool DianaClientRunner::send_setup(
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 165c2a5..e666bfa 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -246,12 +246,13 @@ SophosClientRunner::SophosClientRunner(
     }
 }
 
-// as we forward-declare Sophos::Stub, we cannot use the default
-// destructor
-// NOLINTNEXTLINE(modernize-use-equals-default)
 SophosClientRunner::~SophosClientRunner()
 {
-    // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
+    // do not cancel a running update session: its last updates would be lost
+    if (bulk_update_state_.writer) {
+        // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
+        end_update_session();
+    }
 }
 
 bool SophosClientRunner::send_setup() const
-- 
2.43.0

