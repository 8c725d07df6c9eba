From 3e02b5cfb9674fb9c4f77d68af2f88fd568d6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:50 +0000
Subject: [PATCH 01/89] fix: guard the thread pool's exception pointer with the
 queue mutex

The workers, block() and checkForException() read and wrote the shared
std::exception_ptr without synchronisation. A task could also be dequeued
after another one had already failed.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index e1fe626..b8c3dcc 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -46,10 +46,14 @@ public:
       , m_exception_ptr(exception_ptr) {}
 
   void operator()() {
-    while (m_run_flag.get() && m_exception_ptr == nullptr) {
+    while (m_run_flag.get()) {
       // Check if there is anything it the queue to be done and get it
       std::unique_ptr<ThreadPool::Task> task_ptr = nullptr;
       std::unique_lock<std::mutex>      lock{m_queue_mutex.get()};
+      // Do not start anything else if a task has failed
+      if (m_exception_ptr.get() != nullptr) {
+        break;
+      }
       if (!m_queue.get().empty()) {
         task_ptr = Euclid::make_unique<ThreadPool::Task>(m_queue.get().front());
         m_queue.get().pop_front();
@@ -61,6 +65,7 @@ public:
         try {
           (*task_ptr)();
         } catch (...) {
+          lock.lock();
           m_exception_ptr.get() = std::current_exception();
         }
       } else {
@@ -115,9 +120,12 @@ void waitWorkers(std::vector<std::atomic<bool>>& worker_flags, unsigned int wait
 }  // namespace
 
 bool ThreadPool::checkForException(bool rethrow) {
-  if (m_exception_ptr) {
+  std::unique_lock<std::mutex> lock{m_queue_mutex};
+  auto                         exception_ptr = m_exception_ptr;
+  lock.unlock();
+  if (exception_ptr) {
     if (rethrow) {
-      std::rethrow_exception(m_exception_ptr);
+      std::rethrow_exception(exception_ptr);
     } else {
       return true;
     }
@@ -144,11 +152,13 @@ size_t ThreadPool::activeThreads() const {
 void ThreadPool::block() {
   // Wait for the queue to be empty
   bool queue_is_empty = false;
-  while (!queue_is_empty && m_exception_ptr == nullptr) {
+  bool failed         = false;
+  while (!queue_is_empty && !failed) {
     std::unique_lock<std::mutex> lock{m_queue_mutex};
     queue_is_empty = m_queue.empty();
+    failed         = m_exception_ptr != nullptr;
     lock.unlock();
-    if (!queue_is_empty) {
+    if (!queue_is_empty && !failed) {
       std::this_thread::sleep_for(std::chrono::milliseconds(m_empty_queue_wait_time));
     }
   }
-- 
2.43.0


From 1611c83f57e54018c77ca67df9dbf3a9ccfe5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:50 +0000
Subject: [PATCH 02/89] fix: do not hold the queue mutex while a pool without
 workers runs a task

A task using the pool (submit, queued...) would deadlock on itself.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index b8c3dcc..c6aaf2b 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -180,10 +180,11 @@ ThreadPool::~ThreadPool() {
 }
 
 void ThreadPool::submit(Task task) {
-  std::lock_guard<std::mutex> lock{m_queue_mutex};
   if (m_worker_run_flags.empty()) {
+    // No workers: execute synchronously, without the lock as the task may use the pool
     task();
   } else {
+    std::lock_guard<std::mutex> lock{m_queue_mutex};
     m_queue.emplace_back(std::move(task));
   }
 }
-- 
2.43.0


From 70eb6a0d811c62544479c9f796c189dda1e265f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 03/89] fix: FileHandler try modes lock the file only once

On a successful try_lock the code went on to lock() the same lock,
which throws boost::lock_error, so kTryRead and kTryWrite never worked.
---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 8e7324c..c2531eb 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -29,8 +29,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   assert(manager);
 
   UniqueLock unique_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !unique_lock.try_lock()) {
-    return nullptr;
+  if (try_lock) {
+    if (!unique_lock.try_lock()) {
+      return nullptr;
+    }
   } else {
     unique_lock.lock();
   }
@@ -87,8 +89,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   assert(manager);
 
   SharedLock shared_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !shared_lock.try_lock()) {
-    return nullptr;
+  if (try_lock) {
+    if (!shared_lock.try_lock()) {
+      return nullptr;
+    }
   } else {
     shared_lock.lock();
   }
-- 
2.43.0


From 09fe1a88a859e815eef79f27787466a5d7210983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 04/89] fix: close the write descriptor of another type before
 dropping it

The descriptor was leaked, and it counted against the limit forever.
---
 FilePool/FilePool/_impl/FileHandler.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index c2531eb..b64cf12 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -54,6 +54,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (!m_available_fd.empty()) {
     auto typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(m_available_fd.begin()->second.get());
     if (!typed_ptr) {
+      m_available_fd.begin()->second->close();
       m_available_fd.clear();
     }
   }
-- 
2.43.0


From b28b45e5800cf9c5a47fd82f57338fa4ed1ec747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 05/89] fix: do not unregister the handler that replaced a
 dying one

The deleter erased the entry of its path unconditionally, so two live
handlers, with independent locks, could exist for the same file.
---
 FilePool/src/lib/FileManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index 461b6d1..2ef1ba9 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -106,7 +106,11 @@ std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem
         auto this_shared = this_weak.lock();
         if (this_shared) {
           std::lock_guard<std::mutex> manager_lock(this_shared->m_mutex);
-          this_shared->m_handlers.erase(canonical);
+          // Someone may have created a new handler for the same path in between
+          auto handler_i = this_shared->m_handlers.find(canonical);
+          if (handler_i != this_shared->m_handlers.end() && handler_i->second.expired()) {
+            this_shared->m_handlers.erase(handler_i);
+          }
         }
       }
       delete obj;
-- 
2.43.0


From 9eea0fee323d2723c4b6f7ecb90f3239b72a1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 06/89] fix: do not hold the handler mutex while opening a file

Once the limit is reached the manager asks the handlers to close their
descriptors: a handler waiting for itself, or two handlers waiting for each
other, deadlocked.
---
 FilePool/FilePool/_impl/FileHandler.icpp | 66 ++++++++++++------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index b64cf12..1edfcf6 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -37,7 +37,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
     unique_lock.lock();
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (m_is_readonly) {
@@ -50,29 +50,30 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
 
   assert(m_available_fd.size() <= 1);
 
-  // If there is one, but of a different type, close it
+  // If there is one of the right type, take it. Otherwise, close it
+  std::unique_ptr<TypedFdWrapper<TFD>> typed_fd;
   if (!m_available_fd.empty()) {
-    auto typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(m_available_fd.begin()->second.get());
-    if (!typed_ptr) {
-      m_available_fd.begin()->second->close();
-      m_available_fd.clear();
+    auto avail_i = m_available_fd.begin();
+    if (dynamic_cast<TypedFdWrapper<TFD>*>(avail_i->second.get())) {
+      typed_fd.reset(static_cast<TypedFdWrapper<TFD>*>(avail_i->second.release()));
+    } else {
+      avail_i->second->close();
     }
+    m_available_fd.clear();
   }
 
+  // The manager may request to close any descriptor, including those of this handler, so the mutex can not be held
+  this_lock.unlock();
+
   // Open one file if we need
-  if (m_available_fd.empty()) {
-    auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
-    m_available_fd[fd.first] =
-        std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
+  if (!typed_fd) {
+    auto opened = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    typed_fd.reset(new TypedFdWrapper<TFD>(opened.first, std::move(opened.second), manager.get()));
   }
 
-  assert(m_available_fd.size() == 1);
-
   // Build and return accessor
-  auto typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(m_available_fd.begin()->second.get());
-  auto fd        = std::move(typed_ptr->m_fd);
-  auto id        = typed_ptr->m_id;
-  m_available_fd.clear();
+  auto fd = std::move(typed_fd->m_fd);
+  auto id = typed_fd->m_id;
 
   auto return_callback = [this, id, manager](TFD&& returned_fd) {
     std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
@@ -98,7 +99,7 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
     shared_lock.lock();
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (!m_is_readonly) {
@@ -109,27 +110,28 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
     m_is_readonly = true;
   }
 
-  // Find the first with a matching type
-  TypedFdWrapper<TFD>* typed_ptr = nullptr;
-  auto                 avail_i   = m_available_fd.begin();
-  while (typed_ptr == nullptr && avail_i != m_available_fd.end()) {
-    if ((typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(avail_i->second.get())) == nullptr)
-      ++avail_i;
+  // Take the first with a matching type
+  std::unique_ptr<TypedFdWrapper<TFD>> typed_fd;
+  for (auto avail_i = m_available_fd.begin(); avail_i != m_available_fd.end(); ++avail_i) {
+    if (dynamic_cast<TypedFdWrapper<TFD>*>(avail_i->second.get())) {
+      typed_fd.reset(static_cast<TypedFdWrapper<TFD>*>(avail_i->second.release()));
+      m_available_fd.erase(avail_i);
+      break;
+    }
   }
 
+  // The manager may request to close any descriptor, including those of this handler, so the mutex can not be held
+  this_lock.unlock();
+
   // Open one file if we need
-  if (!typed_ptr) {
-    auto fd   = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
-    typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
-    avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
+  if (!typed_fd) {
+    auto opened = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    typed_fd.reset(new TypedFdWrapper<TFD>(opened.first, std::move(opened.second), manager.get()));
   }
 
-  assert(typed_ptr && avail_i != m_available_fd.end());
-
   // Build and return accessor
-  auto fd = std::move(typed_ptr->m_fd);
-  auto id = typed_ptr->m_id;
-  m_available_fd.erase(avail_i);
+  auto fd = std::move(typed_fd->m_fd);
+  auto id = typed_fd->m_id;
 
   auto return_callback = [this, id, manager](TFD&& returned_fd) {
     std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
-- 
2.43.0


From 948332568161e9ab39f26caaf8f4044f3a6cee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 07/89] fix: FilePool callbacks must not outlive the handler
 they refer to

An accessor outliving the last reference to its handler used the destroyed
handler (mutexes and list of descriptors), and the manager could ask a
handler being destroyed by another thread to close a file.
---
 FilePool/FilePool/FileHandler.h          |  2 +-
 FilePool/FilePool/_impl/FileHandler.icpp | 30 +++++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/FilePool/FilePool/FileHandler.h b/FilePool/FilePool/FileHandler.h
index 00a5dd7..7a9fe67 100644
--- a/FilePool/FilePool/FileHandler.h
+++ b/FilePool/FilePool/FileHandler.h
@@ -36,7 +36,7 @@ namespace FilePool {
  * not* close a file being accessed, so it should just refuse to do so and let the FileManager
  * figure it out.
  */
-class FileHandler {
+class FileHandler : public std::enable_shared_from_this<FileHandler> {
 public:
   /// Open modes
   enum Mode { kRead = 0, kWrite = 1, kTry = 2, kTryRead = kTry, kTryWrite = kTry | kWrite };
diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 1edfcf6..3102065 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -67,7 +67,11 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
 
   // Open one file if we need
   if (!typed_fd) {
-    auto opened = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    std::weak_ptr<FileHandler> weak_this = shared_from_this();
+    auto opened = manager->open<TFD>(m_path, true, [weak_this](FileManager::FileId id) {
+      auto handler = weak_this.lock();
+      return handler && handler->close(id);
+    });
     typed_fd.reset(new TypedFdWrapper<TFD>(opened.first, std::move(opened.second), manager.get()));
   }
 
@@ -75,9 +79,12 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   auto fd = std::move(typed_fd->m_fd);
   auto id = typed_fd->m_id;
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
-    std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
-    m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
+  // The accessor keeps the handler alive, as it owns the lock and takes the descriptor back
+  auto shared_this     = shared_from_this();
+  auto return_callback = [shared_this, id, manager](TFD&& returned_fd) {
+    std::lock_guard<std::mutex> lambda_this_lock(shared_this->m_handler_mutex);
+    shared_this->m_available_fd[id] =
+        std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
   };
 
   manager->notifyUsed(id);
@@ -125,7 +132,11 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
 
   // Open one file if we need
   if (!typed_fd) {
-    auto opened = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    std::weak_ptr<FileHandler> weak_this = shared_from_this();
+    auto opened = manager->open<TFD>(m_path, false, [weak_this](FileManager::FileId id) {
+      auto handler = weak_this.lock();
+      return handler && handler->close(id);
+    });
     typed_fd.reset(new TypedFdWrapper<TFD>(opened.first, std::move(opened.second), manager.get()));
   }
 
@@ -133,9 +144,12 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   auto fd = std::move(typed_fd->m_fd);
   auto id = typed_fd->m_id;
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
-    std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
-    m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
+  // The accessor keeps the handler alive, as it owns the lock and takes the descriptor back
+  auto shared_this     = shared_from_this();
+  auto return_callback = [shared_this, id, manager](TFD&& returned_fd) {
+    std::lock_guard<std::mutex> lambda_this_lock(shared_this->m_handler_mutex);
+    shared_this->m_available_fd[id] =
+        std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
   };
 
   manager->notifyUsed(id);
-- 
2.43.0


From f0eabb8db170fd36123bdd6078d160c601a8a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 08/89] fix: FilePool bookkeeping is not touched while unlocked

notifyIntentToOpen and closeAll kept iterators and pointers into the
bookkeeping while it could be modified by other threads, and some getters
read it without locking.
---
 FilePool/FilePool/FileHandler.h     |  2 +-
 FilePool/src/lib/FileHandler.cpp    |  1 +
 FilePool/src/lib/FileManager.cpp    | 10 +++++-----
 FilePool/src/lib/LRUFileManager.cpp | 22 ++++++++++++----------
 4 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/FilePool/FilePool/FileHandler.h b/FilePool/FilePool/FileHandler.h
index 7a9fe67..4246623 100644
--- a/FilePool/FilePool/FileHandler.h
+++ b/FilePool/FilePool/FileHandler.h
@@ -86,7 +86,7 @@ private:
     }
   };
 
-  std::mutex                                                m_handler_mutex;
+  mutable std::mutex                                        m_handler_mutex;
   boost::filesystem::path                                   m_path;
   std::weak_ptr<FileManager>                                m_file_manager;
   SharedMutex                                               m_file_mutex;
diff --git a/FilePool/src/lib/FileHandler.cpp b/FilePool/src/lib/FileHandler.cpp
index 7f121da..bc4166f 100644
--- a/FilePool/src/lib/FileHandler.cpp
+++ b/FilePool/src/lib/FileHandler.cpp
@@ -31,6 +31,7 @@ FileHandler::~FileHandler() {
 }
 
 bool FileHandler::isReadOnly() const {
+  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
   return m_is_readonly;
 }
 
diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index 2ef1ba9..0eac020 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -73,18 +73,18 @@ void FileManager::notifyUsed(FileId id) {
 }
 
 void FileManager::closeAll() {
-  std::vector<FileMetadata*> to_be_closed;
+  std::vector<std::function<bool(void)>> to_be_closed;
 
-  // To avoid deadlocks on the callback, we get the pointers first
+  // To avoid deadlocks on the callback, we get the callbacks first (the metadata may be gone when we get to it)
   {
     std::unique_lock<std::mutex> lock(m_mutex);
     std::transform(m_files.begin(), m_files.end(), std::back_inserter(to_be_closed),
-                   [](std::pair<FileId const, std::unique_ptr<FileMetadata>>& entry) { return entry.second.get(); });
+                   [](std::pair<FileId const, std::unique_ptr<FileMetadata>>& entry) { return entry.second->m_request_close; });
   }
 
   // And request the closing after
-  for (auto& fd : to_be_closed) {
-    fd->m_request_close();
+  for (auto& request_close : to_be_closed) {
+    request_close();
   }
 }
 
diff --git a/FilePool/src/lib/LRUFileManager.cpp b/FilePool/src/lib/LRUFileManager.cpp
index 611bc3f..15f078e 100644
--- a/FilePool/src/lib/LRUFileManager.cpp
+++ b/FilePool/src/lib/LRUFileManager.cpp
@@ -18,7 +18,10 @@
 
 #include "FilePool/LRUFileManager.h"
 #include "ElementsKernel/Exception.h"
+#include <algorithm>
+#include <functional>
 #include <sys/resource.h>
+#include <vector>
 
 namespace Euclid {
 namespace FilePool {
@@ -40,18 +43,15 @@ void LRUFileManager::notifyIntentToOpen(bool /*write*/) {
   std::unique_lock<std::mutex> lock(m_mutex);
 
   while (m_files.size() >= m_limit) {
-    bool closed = false;
+    // The bookkeeping can be modified by other threads while unlocked, so get a copy of the callbacks
+    std::vector<std::function<bool(void)>> close_calls;
     for (auto& id : m_sorted_ids) {
-      auto& meta       = m_files[id];
-      auto  close_call = meta->m_request_close;
-      lock.unlock();
-      closed = close_call();
-      lock.lock();
-      // If the file was closed, the iterator on m_sorted_ids has been invalidated!
-      if (closed)
-        break;
+      close_calls.emplace_back(m_files.at(id)->m_request_close);
     }
-    if (!closed) {
+    lock.unlock();
+    bool closed = std::any_of(close_calls.begin(), close_calls.end(), [](std::function<bool(void)>& call) { return call(); });
+    lock.lock();
+    if (!closed && m_files.size() >= m_limit) {
       throw Elements::Exception() << "Limit reached and failed to close any existing file descriptor";
     }
   }
@@ -91,10 +91,12 @@ unsigned int LRUFileManager::getLimit() const {
 }
 
 unsigned int LRUFileManager::getUsed() const {
+  std::lock_guard<std::mutex> lock(m_mutex);
   return m_sorted_ids.size();
 }
 
 unsigned int LRUFileManager::getAvailable() const {
+  std::lock_guard<std::mutex> lock(m_mutex);
   return m_limit - m_sorted_ids.size();
 }
 
-- 
2.43.0


From f7e38951c31e3f4b5ed0825c720f71f80d1b81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 09/89] fix: opening files from several threads must not exceed
 the limit

Making room for a file and opening it were not atomic.
---
 FilePool/FilePool/FileManager.h          | 3 +++
 FilePool/FilePool/_impl/FileManager.icpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/FilePool/FilePool/FileManager.h b/FilePool/FilePool/FileManager.h
index 4e3f8fe..ce2b006 100644
--- a/FilePool/FilePool/FileManager.h
+++ b/FilePool/FilePool/FileManager.h
@@ -157,6 +157,9 @@ protected:
 
   mutable std::mutex m_mutex;
 
+  /// Serializes the opening of files, so the limits can be honored
+  std::mutex m_open_mutex;
+
   /**
    * Map path / handler
    * @details
diff --git a/FilePool/FilePool/_impl/FileManager.icpp b/FilePool/FilePool/_impl/FileManager.icpp
index 7705ab3..53166cd 100644
--- a/FilePool/FilePool/_impl/FileManager.icpp
+++ b/FilePool/FilePool/_impl/FileManager.icpp
@@ -41,6 +41,9 @@ struct FileManager::FileMetadata {
 template <typename TFD>
 auto FileManager::open(const boost::filesystem::path& path, bool write, std::function<bool(FileId)> request_close)
     -> std::pair<FileId, TFD> {
+  // One at a time. Otherwise, several threads could see the same free slot
+  std::lock_guard<std::mutex> open_lock(m_open_mutex);
+
   notifyIntentToOpen(write);
 
   auto   meta           = Euclid::make_unique<FileMetadata>(path, write);
-- 
2.43.0


From 3cf4440240adcf1408eed4dc4d749b72c4a740f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 10/89] fix: NdArray iterator post-increment advances the
 iterator

It returned the next position and left the iterator where it was.
---
 NdArray/NdArray/_impl/NdArray.icpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 31ae36f..08064a8 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -59,7 +59,9 @@ auto NdArray<T>::Iterator<Const>::operator++() -> Iterator& {
 template <typename T>
 template <bool Const>
 auto NdArray<T>::Iterator<Const>::operator++(int) -> Iterator {
-  return Iterator{m_container_ptr, m_offset, m_row_size, m_stride, m_i + 1};
+  Iterator previous{*this};
+  ++m_i;
+  return previous;
 }
 
 template <typename T>
-- 
2.43.0


From 3b4272dc88d057ec1b6f03078936fa3981c4b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 11/89] fix: do not compute the NdArray size with 32 bits

std::accumulate uses the type of the initial value, so the number of elements
was truncated and accesses went beyond the allocated memory.
---
 NdArray/NdArray/NdArray.h             |  2 +-
 NdArray/NdArray/_impl/NdArray.icpp    | 16 ++++++++--------
 NdArray/NdArray/io/_impl/NpyCommon.h  |  4 ++--
 NdArray/NdArray/io/_impl/NpyMmap.icpp |  2 +-
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/NdArray/NdArray/NdArray.h b/NdArray/NdArray/NdArray.h
index 911444c..9d0d811 100644
--- a/NdArray/NdArray/NdArray.h
+++ b/NdArray/NdArray/NdArray.h
@@ -521,7 +521,7 @@ private:
 
     template <typename T2>
     auto resizeImpl(const std::vector<size_t>& shape) -> decltype((void)std::declval<Container<T2>>().resize(size_t{}), void()) {
-      auto new_size = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
+      auto new_size = std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>());
       m_container.resize(new_size);
     }
 
diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 08064a8..b3aa484 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -30,7 +30,7 @@ NdArray<T>::Iterator<Const>::Iterator(ContainerInterface* container_ptr, size_t
                                       const std::vector<size_t>& strides, size_t start)
     : m_container_ptr(container_ptr)
     , m_offset(offset)
-    , m_row_size(std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>()))
+    , m_row_size(std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>()))
     , m_stride{strides.back()}
     , m_i{start} {}
 
@@ -153,7 +153,7 @@ template <typename T>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())}
     , m_container(new ContainerWrapper<std::vector>(m_size)) {
   update_strides();
 }
@@ -163,7 +163,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, const Container<T>& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(data)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -176,7 +176,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, Container<T>&& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(std::move(data))} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -189,7 +189,7 @@ template <typename II>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, II ibegin, II iend)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<std::vector>(ibegin, iend)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -202,7 +202,7 @@ NdArray<T>::NdArray(const self_type* other)
     : m_offset{0}
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())}
     , m_container{other->m_container->copy()} {
   update_strides();
 }
@@ -225,7 +225,7 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (!m_attr_names.empty())
     throw std::invalid_argument("Can not reshape arrays with attribute names");
 
-  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<size_t>());
+  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), size_t(1), std::multiplies<size_t>());
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
@@ -355,7 +355,7 @@ template <typename T>
 NdArray<T>::NdArray(std::shared_ptr<ContainerInterface> container, size_t offset, std::vector<size_t> shape_,
                     std::vector<size_t> stride, std::vector<std::string> attr_names)
     : m_offset{offset}, m_shape{shape_}, m_stride_size{stride}, m_attr_names{attr_names}, m_container{container} {
-  m_size = std::accumulate(m_shape.begin(), m_shape.end(), 1, std::multiplies<size_t>());
+  m_size = std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>());
 }
 
 template <typename T>
diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 43f176d..49d589b 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -183,7 +183,7 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   if (shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
   shape      = stringToVector<size_t>(shape_str);
-  n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  n_elements = std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>());
 }
 
 /**
@@ -353,7 +353,7 @@ public:
                                      "The new header length must match the allocated space.";
     }
 
-    m_n_elements    = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
+    m_n_elements    = std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>());
     size_t new_size = header_size + sizeof(T) * m_n_elements;
     if (new_size > m_max_size) {
       throw Elements::Exception() << "resize request bigger than maximum allocated size: " << new_size << " > " << m_max_size;
diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index c7b34dc..49b9169 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -70,7 +70,7 @@ NdArray<T> createMmapNpy(const boost::filesystem::path& path, const std::vector<
   assert(header_size % 64 == 0);
 
   // Compute file expected size
-  size_t n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>());
   if (!attrs.empty())
     n_elements *= attrs.size();
   size_t data_size  = n_elements * sizeof(T);
-- 
2.43.0


From e50cd61804916a200becf2a77d6dda91cc4f021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 12/89] fix: reshape of a NdArray view keeps the distance
 between its elements

Reshaping an rslice reset the strides as if it were contiguous, so the view
pointed to elements of other slices.
---
 NdArray/NdArray/_impl/NdArray.icpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index b3aa484..c651523 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -437,9 +437,10 @@ size_t NdArray<T>::get_offset(std::vector<size_t> coords, const std::string& att
 
 template <typename T>
 void NdArray<T>::update_strides() {
-  m_stride_size.resize(m_shape.size());
+  // The elements of a view may not be contiguous, in which case the stride of the last axis is not 1
+  size_t acc = m_stride_size.empty() ? 1 : m_stride_size.back();
 
-  size_t acc = 1;
+  m_stride_size.resize(m_shape.size());
   for (size_t i = m_stride_size.size(); i > 0; --i) {
     m_stride_size[i - 1] = acc;
     acc *= m_shape[i - 1];
-- 
2.43.0


From 63769d1085ceee75d273a82f1d91cb5d3337d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 13/89] fix: NdArray::copy copies the elements of the array

The copy of a view had the whole container of the original array, read from
its beginning, and the copy of a memory mapped array shared the mapping.
---
 NdArray/NdArray/_impl/NdArray.icpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index c651523..0757020 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -203,7 +203,9 @@ NdArray<T>::NdArray(const self_type* other)
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
     , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())}
-    , m_container{other->m_container->copy()} {
+    , m_container{new ContainerWrapper<std::vector>(
+          const_iterator{other->m_container.get(), other->m_offset, other->m_shape, other->m_stride_size, 0},
+          const_iterator{other->m_container.get(), other->m_offset, other->m_shape, other->m_stride_size, m_size})} {
   update_strides();
 }
 
-- 
2.43.0


From 61138d115a5f97b042ff038e0953088701df01e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 14/89] fix: NdArray::concatenate on a view must not resize the
 shared data

The container was resized to the shape of the view, truncating the data of
the viewed array, and the new elements were written after its end.
---
 NdArray/NdArray/_impl/NdArray.icpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 0757020..e0832f9 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -338,6 +338,11 @@ auto NdArray<T>::concatenate(const self_type& other) -> self_type& {
       throw std::length_error("The size of all axis except for the first one must match");
   }
 
+  // If this is a view, or someone else extended the shared container, we need our own data
+  if (m_container->size() != std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())) {
+    *this = copy();
+  }
+
   // New shape
   auto old_size  = m_container->size();
   auto new_shape = m_shape;
-- 
2.43.0


From 29a80a695d3283e8b430fbcb401e763f1120e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 15/89] fix: attribute names of NdArray slices

The names belong to the items of the last axis: slice() keeps that axis, but
was dropping the first name, so names referred to the wrong items. rslice()
removes it, but kept names for another axis.
---
 NdArray/NdArray/_impl/NdArray.icpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index e0832f9..f206076 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -373,15 +373,10 @@ auto NdArray<T>::slice(size_t i) -> self_type {
   if (i >= m_shape[0]) {
     throw std::out_of_range("Axis 0 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin() + 1, m_attr_names.end(), attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size[0];
   std::vector<size_t> stride_(m_stride_size.begin() + 1, m_stride_size.end());
   std::vector<size_t> shape_(m_shape.begin() + 1, m_shape.end());
-  return NdArray(m_container, offset, std::move(shape_), std::move(stride_), std::move(attrs));
+  return NdArray(m_container, offset, std::move(shape_), std::move(stride_), m_attr_names);
 }
 
 template <typename T>
@@ -397,15 +392,10 @@ auto NdArray<T>::rslice(size_t i) -> self_type {
   if (i >= m_shape.back()) {
     throw std::out_of_range("Axis -1 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin(), m_attr_names.end() - 1, attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size.back();
   std::vector<size_t> strides_(m_stride_size.begin(), m_stride_size.end() - 1);
   std::vector<size_t> shape_(m_shape.begin(), m_shape.end() - 1);
-  return NdArray(m_container, offset, std::move(shape_), std::move(strides_), std::move(attrs));
+  return NdArray(m_container, offset, std::move(shape_), std::move(strides_), {});
 }
 
 template <typename T>
-- 
2.43.0


From fe1ea28009781df32f908715a35ce7d4e0eab960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 16/89] fix: NdArray::concatenate on an empty view of a strided
 array

---
 NdArray/NdArray/_impl/NdArray.icpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index f206076..d6fc298 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -339,7 +339,8 @@ auto NdArray<T>::concatenate(const self_type& other) -> self_type& {
   }
 
   // If this is a view, or someone else extended the shared container, we need our own data
-  if (m_container->size() != std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>())) {
+  if (m_container->size() != std::accumulate(m_shape.begin(), m_shape.end(), size_t(1), std::multiplies<size_t>()) ||
+      (!m_stride_size.empty() && m_stride_size.back() != 1)) {
     *this = copy();
   }
 
-- 
2.43.0


From 544ed09ef4c8a24a432702f72091e018675f18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 17/89] fix: unravel_index of an empty array throws
 out_of_range

---
 NdArray/src/Operations.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/NdArray/src/Operations.cpp b/NdArray/src/Operations.cpp
index 8155991..41ffed0 100644
--- a/NdArray/src/Operations.cpp
+++ b/NdArray/src/Operations.cpp
@@ -23,13 +23,14 @@ namespace NdArray {
 
 std::vector<std::size_t> unravel_index(std::size_t index, const std::vector<std::size_t>& shape) {
   std::vector<std::size_t> coords(shape.size());
-  std::size_t              i = coords.size();
-  do {
-    --i;
-    std::size_t stride = shape[i];
-    coords[i]          = index % stride;
+  for (std::size_t i = coords.size(); i > 0; --i) {
+    std::size_t stride = shape[i - 1];
+    if (stride == 0) {
+      throw std::out_of_range("Index out of bounds");
+    }
+    coords[i - 1] = index % stride;
     index /= stride;
-  } while (i > 0);
+  }
   if (index > 0) {
     throw std::out_of_range("Index out of bounds");
   }
-- 
2.43.0


From 2b25967110bab2eeced82a217b309689af14eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 18/89] fix: NdArrays without dimensions

---
 NdArray/NdArray/_impl/NdArray.icpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index d6fc298..91b7d40 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -31,7 +31,7 @@ NdArray<T>::Iterator<Const>::Iterator(ContainerInterface* container_ptr, size_t
     : m_container_ptr(container_ptr)
     , m_offset(offset)
     , m_row_size(std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>()))
-    , m_stride{strides.back()}
+    , m_stride{strides.empty() ? 1 : strides.back()}
     , m_i{start} {}
 
 template <typename T>
@@ -333,6 +333,9 @@ auto NdArray<T>::concatenate(const self_type& other) -> self_type& {
   if (m_shape.size() != other.m_shape.size()) {
     throw std::length_error("Can not concatenate arrays with different dimensionality");
   }
+  if (m_shape.empty()) {
+    throw std::length_error("Can not concatenate arrays without dimensions");
+  }
   for (size_t i = 1; i < m_shape.size(); ++i) {
     if (m_shape[i] != other.m_shape[i])
       throw std::length_error("The size of all axis except for the first one must match");
@@ -495,11 +498,10 @@ std::ostream& operator<<(std::ostream& out, const NdArray<T>& ndarray) {
 
   if (ndarray.size()) {
     out << "<";
-    size_t i;
-    for (i = 0; i < shape.size() - 1; ++i) {
-      out << shape[i] << ",";
+    for (size_t i = 0; i < shape.size(); ++i) {
+      out << (i ? "," : "") << shape[i];
     }
-    out << shape[i] << ">";
+    out << ">";
 
     auto iter = ndarray.begin(), end_iter = ndarray.end() - 1;
     for (; iter != end_iter; ++iter) {
-- 
2.43.0


From f9c00e793ee51c033cbaaf60ba077b1e4464ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 19/89] fix: read the single byte integers written by numpy

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 49d589b..65ac3ff 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -55,7 +55,7 @@ struct NpyDtype {};
 
 template <>
 struct NpyDtype<int8_t> {
-  static constexpr const char* str = "b";
+  static constexpr const char* str = "i1";
 };
 
 template <>
@@ -75,7 +75,7 @@ struct NpyDtype<int64_t> {
 
 template <>
 struct NpyDtype<uint8_t> {
-  static constexpr const char* str = "B";
+  static constexpr const char* str = "u1";
 };
 
 template <>
@@ -109,6 +109,11 @@ struct NpyDtype<double> {
 inline void parseSingleValue(const std::string& descr, bool& big_endian, std::string& dtype) {
   big_endian = (descr.front() == '>');
   dtype      = descr.substr(1);
+  // Alternative names of the single byte types
+  if (dtype == "b")
+    dtype = NpyDtype<int8_t>::str;
+  else if (dtype == "B")
+    dtype = NpyDtype<uint8_t>::str;
 }
 
 /**
-- 
2.43.0


From f1a591ff675ce2d983634e99325681afab27a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 20/89] fix: reject malformed and truncated npy files

---
 NdArray/NdArray/io/_impl/NpyCommon.h    | 45 ++++++++++++++++++++-----
 NdArray/NdArray/io/_impl/NpyReader.icpp |  4 ++-
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 65ac3ff..206b72f 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -107,6 +107,8 @@ struct NpyDtype<double> {
  * Parse a single dtype description (i.e. '<f8')
  */
 inline void parseSingleValue(const std::string& descr, bool& big_endian, std::string& dtype) {
+  if (descr.empty())
+    throw Elements::Exception() << "Empty type description";
   big_endian = (descr.front() == '>');
   dtype      = descr.substr(1);
   // Alternative names of the single byte types
@@ -167,10 +169,19 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
  */
 inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& big_endian, std::string& dtype,
                          std::vector<size_t>& shape, std::vector<std::string>& attrs, size_t& n_elements) {
-  auto loc      = header.find("fortran_order") + 16;
+  // Position of the value of an entry of the dictionary
+  auto value_of = [&header](const std::string& key) {
+    auto quoted = '\'' + key + "':";
+    auto pos    = header.find(quoted);
+    if (pos == std::string::npos || pos + quoted.size() + 1 >= header.size())
+      throw Elements::Exception() << "Missing " << key << " in the header: " << header;
+    return pos + quoted.size() + 1;
+  };
+
+  auto loc      = value_of("fortran_order");
   fortran_order = (header.substr(loc, 4) == "True");
 
-  loc = header.find("descr") + 8;
+  loc = value_of("descr");
 
   if (header[loc] == '\'') {
     auto end = header.find('\'', loc + 1);
@@ -182,12 +193,19 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
     throw Elements::Exception() << "Failed to parse the array description: " << header;
   }
 
-  loc            = header.find("shape") + 9;
-  auto loc2      = header.find(')', loc);
-  auto shape_str = header.substr(loc, loc2 - loc);
-  if (shape_str.back() == ',')
+  loc       = value_of("shape");
+  auto loc2 = header.find(')', loc);
+  if (header[loc] != '(' || loc2 == std::string::npos)
+    throw Elements::Exception() << "Failed to parse the array shape: " << header;
+  auto shape_str = header.substr(loc + 1, loc2 - loc - 1);
+  if (shape_str.find_first_not_of("0123456789, ") != std::string::npos)
+    throw Elements::Exception() << "Failed to parse the array shape: " << header;
+  if (!shape_str.empty() && shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
-  shape      = stringToVector<size_t>(shape_str);
+  if (shape_str.empty())
+    shape.clear();
+  else
+    shape = stringToVector<size_t>(shape_str);
   n_elements = std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>());
 }
 
@@ -210,7 +228,7 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   // Magic
   char magic[6];
   input.read(magic, sizeof(magic));
-  if (std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
+  if (!input || std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
     throw Elements::Exception() << "Unexpected magic sequence";
   }
 
@@ -218,7 +236,9 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   little_uint32_t header_len;
   little_uint16_t version;
   input.read(reinterpret_cast<char*>(&version), sizeof(version));
-  if (version > 30) {
+  if (!input) {
+    throw Elements::Exception() << "Truncated header";
+  } else if (version > 30) {
     throw Elements::Exception() << "Only numpy arrays with version 3 or less are supported";
   } else if (version.data()[0] == 1) {
     // 16 bits integer in little endian
@@ -230,9 +250,16 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
     input.read(reinterpret_cast<char*>(&header_len), sizeof(header_len));
   }
 
+  if (!input) {
+    throw Elements::Exception() << "Truncated header";
+  }
+
   // Read header
   std::string header(header_len, '\0');
   input.read(&header[0], header_len);
+  if (!input) {
+    throw Elements::Exception() << "Truncated header";
+  }
 
   // Parse header
   bool fortran_order, big_endian;
diff --git a/NdArray/NdArray/io/_impl/NpyReader.icpp b/NdArray/NdArray/io/_impl/NpyReader.icpp
index b76c2e0..b2490c5 100644
--- a/NdArray/NdArray/io/_impl/NpyReader.icpp
+++ b/NdArray/NdArray/io/_impl/NpyReader.icpp
@@ -46,7 +46,9 @@ NdArray<T> readNpy(std::istream& input) {
   }
 
   std::vector<T> data(n_elements);
-  input.read(reinterpret_cast<char*>(&data[0]), sizeof(T) * data.size());
+  input.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.size());
+  if (!input)
+    throw Elements::Exception() << "Truncated npy data";
   return {shape, attr_names, std::move(data)};
 }
 
-- 
2.43.0


From c4418423f41e7d53f02ceb125fc94bdb01d556dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 21/89] fix: mapping a truncated npy file must not give access
 past its end

---
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index 49b9169..aaf642c 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -38,10 +38,12 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
   boost::iostreams::mapped_file_params map_params;
   map_params.path  = path.native();
   map_params.flags = mode;
-  if (max_size)
+
+  size_t file_size = boost::filesystem::file_size(path);
+  if (max_size > file_size)
     map_params.length = max_size;
   else
-    max_size = boost::filesystem::file_size(path);
+    max_size = file_size;
 
   boost::iostreams::mapped_file input(map_params);
   MappedStream                  stream(input);
@@ -55,7 +57,11 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     n_elements *= attrs.size();
   }
 
-  return {shape, attrs, std::move(MappedContainer<T>(path, stream.tellg(), n_elements, attrs, std::move(input), max_size))};
+  size_t data_offset = stream.tellg();
+  if (data_offset > file_size || (file_size - data_offset) / sizeof(T) < n_elements)
+    throw Elements::Exception() << "Truncated npy data";
+
+  return {shape, attrs, std::move(MappedContainer<T>(path, data_offset, n_elements, attrs, std::move(input), max_size))};
 }
 
 template <typename T>
-- 
2.43.0


From 7d13273b5b0e28cc5908ba96aae5c84b0710d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 22/89] fix: npy files mapped read-only have data

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 206b72f..6b66e6f 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -363,7 +363,7 @@ public:
       , m_max_size(max_size)
       , m_attr_names(attr_names)
       , m_mapped(std::move(input))
-      , m_data(reinterpret_cast<T*>(m_mapped.data() + data_offset)) {}
+      , m_data(reinterpret_cast<T*>(const_cast<char*>(m_mapped.const_data()) + data_offset)) {}
 
   size_t size() const {
     return m_n_elements;
-- 
2.43.0


From 0abd219429eef1def4676a6f3cd9a02bbb7f636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:40 +0000
Subject: [PATCH 23/89] fix: a refused resize of a mapped npy file changes
 nothing

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 6b66e6f..caf38ad 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -385,12 +385,13 @@ public:
                                      "The new header length must match the allocated space.";
     }
 
-    m_n_elements    = std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>());
-    size_t new_size = header_size + sizeof(T) * m_n_elements;
+    size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<size_t>());
+    size_t new_size   = header_size + sizeof(T) * n_elements;
     if (new_size > m_max_size) {
       throw Elements::Exception() << "resize request bigger than maximum allocated size: " << new_size << " > " << m_max_size;
     }
     boost::filesystem::resize_file(m_path, new_size);
+    m_n_elements = n_elements;
     std::copy(header_str.begin(), header_str.end(), m_mapped.data());
   }
 
-- 
2.43.0


From 3c80785df509e2ae439032b0e4ddfde3d19fd89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:04 +0000
Subject: [PATCH 24/89] fix: endianness of a npy file without a readable type
 is not left undefined

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index caf38ad..6ebe572 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -262,7 +262,7 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   }
 
   // Parse header
-  bool fortran_order, big_endian;
+  bool fortran_order = false, big_endian = false;
   parseNpyDict(header, fortran_order, big_endian, dtype, shape, attrs, n_elements);
 
   if (fortran_order)
-- 
2.43.0


From 9c1ecb055788a04b386aa9828a2862b52769824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:18 +0000
Subject: [PATCH 25/89] fix: the header of npy files mapped read-only can be
 read

---
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index aaf642c..3abba21 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -20,13 +20,14 @@
 
 #include "NpyCommon.h"
 #include <boost/filesystem/path.hpp>
+#include <boost/iostreams/device/array.hpp>
 #include <boost/iostreams/stream.hpp>
 #include <numeric>
 
 namespace Euclid {
 namespace NdArray {
 
-typedef boost::iostreams::stream<boost::iostreams::mapped_file> MappedStream;
+typedef boost::iostreams::stream<boost::iostreams::array_source> MappedStream;
 
 template <typename T>
 NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped_file_base::mapmode mode, size_t max_size) {
@@ -46,8 +47,7 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     max_size = file_size;
 
   boost::iostreams::mapped_file input(map_params);
-  MappedStream                  stream(input);
-  stream.set_auto_close(false);
+  MappedStream                  stream(input.const_data(), file_size);
   readNpyHeader(stream, dtype, shape, attrs, n_elements);
 
   if (dtype != NpyDtype<T>::str)
-- 
2.43.0


From 45fafa386cd4e26e184626475bbd55a4ce635a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 26/89] fix: axes and size of the slice of a GridContainer
 slice

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 2c8e7ca..77abad9 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -46,7 +46,7 @@ template <typename GridCellManager, typename... AxesTypes>
 GridContainer<GridCellManager, AxesTypes...>::GridContainer(const GridContainer<GridCellManager, AxesTypes...>& other, size_t axis,
                                                             size_t index)
     : m_axes{other.m_axes}
-    , m_axes_fixed{fixAxis(other.m_axes, axis, index)}
+    , m_axes_fixed{fixAxis(other.m_axes_fixed, axis, other.m_fixed_indices.count(axis) ? 0 : index)}
     , m_fixed_indices{other.m_fixed_indices}
     , m_cell_manager{other.m_cell_manager} {
   // Update the fixed indices
-- 
2.43.0


From 5be084545e0a3d4353b5ae0e4d844f22e697cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 27/89] fix: infimum of GridContainers with a single axis

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 77abad9..0c2d5a2 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -184,8 +184,9 @@ struct InfimumHelper<0> {
 
   template <typename... AxesType>
   static std::tuple<std::size_t> getIndex(const std::tuple<AxesType...>& coords, const std::tuple<GridAxis<AxesType>...>& axes) {
-    auto i0 = std::get<0>(axes).infimum(std::get<0>(coords));
-    return std::make_tuple(i0);
+    std::tuple<std::size_t> index;
+    getIndex(coords, axes, index);
+    return index;
   }
 
   template <typename IndexTuple, typename... AxesType>
-- 
2.43.0


From f1f1a96ad64ccae9526e5cabbfdeb3deda77da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 28/89] fix: infimum of a GridContainer slice uses the axes of
 the slice

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 0c2d5a2..74d5bb4 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -206,7 +206,7 @@ auto GridContainer<GridCellManager, AxesTypes...>::infimum(const AxesTypes... co
 template <typename GridCellManager, typename... AxesTypes>
 auto GridContainer<GridCellManager, AxesTypes...>::infimum(const std::tuple<AxesTypes...>& coords) const
     -> std::tuple<decltype(std::declval<GridAxis<AxesTypes>>().size())...> {
-  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes);
+  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes_fixed);
 }
 
 template <typename GridCellManager, typename... AxesTypes>
-- 
2.43.0


From 8cd9a9c093988124deb421ed105382279fc3d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:12 +0000
Subject: [PATCH 29/89] fix: fixing an axis of an advanced GridContainer
 iterator

---
 GridContainer/GridContainer/GridContainer.h   |  3 +-
 .../GridContainer/_impl/GridIterator.icpp     | 39 ++++++++++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/GridContainer/GridContainer/GridContainer.h b/GridContainer/GridContainer/GridContainer.h
index 37a2ff2..c6d4901 100644
--- a/GridContainer/GridContainer/GridContainer.h
+++ b/GridContainer/GridContainer/GridContainer.h
@@ -498,7 +498,8 @@ private:
   const GridContainer<GridCellManager, AxesTypes...>& m_owner;
   cell_manager_iter_type                              m_data_iter;
   std::map<size_t, size_t>                            m_fixed_indices;
-  void                                                forwardToIndex(size_t axis, size_t fixed_index);
+  bool                                                forwardToIndex(size_t axis, size_t fixed_index);
+  void                                                forwardToFixed();
 
 };  // end of class iter
 
diff --git a/GridContainer/GridContainer/_impl/GridIterator.icpp b/GridContainer/GridContainer/_impl/GridIterator.icpp
index 81f6717..c97bcdd 100644
--- a/GridContainer/GridContainer/_impl/GridIterator.icpp
+++ b/GridContainer/GridContainer/_impl/GridIterator.icpp
@@ -47,20 +47,30 @@ template <typename GridCellManager, typename... AxesTypes>
 template <typename CellType>
 auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::operator++() -> iter& {
   ++m_data_iter;
+  forwardToFixed();
+  return *this;
+}
+
+template <typename GridCellManager, typename... AxesTypes>
+template <typename CellType>
+void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToFixed() {
   if (!m_fixed_indices.empty()) {
-    for (auto& fixed_index_pair : m_fixed_indices) {
-      size_t axis        = fixed_index_pair.first;
-      size_t fixed_index = fixed_index_pair.second;
-      forwardToIndex(axis, fixed_index);
+    auto end_iter = GridCellManagerTraits<GridCellManager>::end(*(m_owner.m_cell_manager));
+    // From the slowest axis to the fastest. If moving along an axis carries to the slower ones, these have to
+    // be fixed again.
+    bool carry = true;
+    while (carry && m_data_iter < end_iter) {
+      carry = false;
+      for (auto fixed = m_fixed_indices.rbegin(); fixed != m_fixed_indices.rend() && !carry; ++fixed) {
+        carry = forwardToIndex(fixed->first, fixed->second);
+      }
     }
     // Because we make big steps there is the possibility we went after the end.
     // In this case we set the iterator to the end.
-    auto end_iter = GridCellManagerTraits<GridCellManager>::end(*(m_owner.m_cell_manager));
     if (m_data_iter > end_iter) {
       m_data_iter = end_iter;
     }
   }
-  return *this;
 }
 
 template <typename GridCellManager, typename... AxesTypes>
@@ -128,7 +138,7 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByInde
                                 << m_owner.getOriginalAxis<I>().size() << ")";
   }
   m_fixed_indices[I] = index;
-  forwardToIndex(I, index);
+  forwardToFixed();
   return *this;
 }
 
@@ -147,15 +157,18 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByValu
 
 template <typename GridCellManager, typename... AxesTypes>
 template <typename CellType>
-void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToIndex(size_t axis, size_t fixed_index) {
+bool GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToIndex(size_t axis, size_t fixed_index) {
   size_t current_size  = m_data_iter - GridCellManagerTraits<GridCellManager>::begin(*(m_owner.m_cell_manager));
   size_t current_index = m_owner.m_index_helper.axisIndex(axis, current_size);
-  if (fixed_index != current_index) {
-    size_t axis_factor = m_owner.m_index_helper.m_axes_index_factors[axis];
-    size_t distance    = (fixed_index > current_index) ? fixed_index - current_index
-                                                    : m_owner.m_index_helper.m_axes_sizes[axis] + fixed_index - current_index;
-    m_data_iter += distance * axis_factor;
+  if (fixed_index == current_index) {
+    return false;
   }
+  bool   carry       = fixed_index < current_index;
+  size_t axis_factor = m_owner.m_index_helper.m_axes_index_factors[axis];
+  size_t distance    = carry ? m_owner.m_index_helper.m_axes_sizes[axis] + fixed_index - current_index : fixed_index - current_index;
+  // The faster axes start again from their first index
+  m_data_iter += distance * axis_factor - current_size % axis_factor;
+  return carry;
 }
 
 template <typename IterFrom, typename IterTo, int I>
-- 
2.43.0


From 4834259588737349bba875f1c3a59422f0ed9076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 30/89] fix: several GridContainers in one boost archive

---
 GridContainer/GridContainer/serialization/GridContainer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/serialization/GridContainer.h b/GridContainer/GridContainer/serialization/GridContainer.h
index 1e7b9a5..a07be28 100644
--- a/GridContainer/GridContainer/serialization/GridContainer.h
+++ b/GridContainer/GridContainer/serialization/GridContainer.h
@@ -108,7 +108,9 @@ void serialize(Archive& ar, Euclid::GridContainer::GridContainer<GridCellManager
 template <class Archive, typename GridCellManager, typename... AxesTypes>
 void save_construct_data(Archive& ar, const Euclid::GridContainer::GridContainer<GridCellManager, AxesTypes...>* t,
                          const unsigned int) {
-  std::tuple<Euclid::GridContainer::GridAxis<AxesTypes>...> axes_tuple = t->getAxesTuple();
+  // The axes of the grid itself are saved and not a local copy of them, because the archive identifies the objects
+  // by their address and the copies of the axes of two grids can have the same one
+  const std::tuple<Euclid::GridContainer::GridAxis<AxesTypes>...>& axes_tuple = t->getAxesTuple();
   ar << axes_tuple;
 }
 
-- 
2.43.0


From 92dfedab20fc7fd93abc97a39a1a872e91c23e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:54 +0000
Subject: [PATCH 31/89] fix: values next to the end of the range must be
 counted in the last bin

---
 Histogram/Histogram/Binning/Scott.h | 7 ++++++-
 Histogram/Histogram/Binning/Sqrt.h  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index e3b53d8..a458f26 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -83,9 +83,14 @@ public:
   }
 
   ssize_t getBinIndex(VarType value) const final {
+    if (value < m_start)
+      return -1;
+    if (value > m_end)
+      return m_nbins;
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    // The division can be rounded up to the number of bins
+    return std::min<ssize_t>((value - m_start) / m_step, m_nbins - 1);
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index f707e96..aad04fa 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -52,9 +52,14 @@ public:
   }
 
   ssize_t getBinIndex(VarType value) const final {
+    if (value < m_start)
+      return -1;
+    if (value > m_end)
+      return m_nbins;
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    // The division can be rounded up to the number of bins
+    return std::min<ssize_t>((value - m_start) / m_step, m_nbins - 1);
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
-- 
2.43.0


From 6e53fb989ee803f0134e3cd535a0dd186fce00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:54 +0000
Subject: [PATCH 32/89] fix: Scott binning of identical values

---
 Histogram/Histogram/Binning/Scott.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index a458f26..d4bbfe1 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -67,7 +67,8 @@ public:
     VarType vmin  = min(acc);
     VarType vmax  = max(acc);
 
-    if (sigma == 0) {
+    // Note that the variance of identical values may not be exactly 0
+    if (sigma == 0 || vmin == vmax) {
       vmax += 0.5;
       vmin -= 0.5;
       h = 1;
@@ -75,7 +76,8 @@ public:
 
     VarType range = vmax - vmin;
 
-    m_nbins = std::ceil(range / h);
+    // At least one bin, even if the range is too small for the precision of the type
+    m_nbins = std::max<size_t>(1, std::ceil(range / h));
 
     m_step  = range / m_nbins;
     m_start = vmin;
-- 
2.43.0


From 30259f06cc4628974d078a6d4d52587c8376e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:28 +0000
Subject: [PATCH 33/89] fix: median of a Histogram

---
 .../Histogram/_impl/ComputationImpl.icpp      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/Histogram/Histogram/_impl/ComputationImpl.icpp b/Histogram/Histogram/_impl/ComputationImpl.icpp
index 2af6c21..166fbfe 100644
--- a/Histogram/Histogram/_impl/ComputationImpl.icpp
+++ b/Histogram/Histogram/_impl/ComputationImpl.icpp
@@ -49,16 +49,15 @@ std::tuple<VarType, VarType, VarType> Histogram<VarType, WeightType>::Computatio
     }
   }
 
-  assert(low_sum + high_sum == total_count);
-
-  VarType median;
-  if (high_i >= 0) {
-    auto edges      = m_binning.getBinEdges(high_i + 1);
-    auto bin_width  = (edges.second - edges.first);
-    auto max_counts = std::max((*m_counts)[low_i], (*m_counts)[high_i]);
-    median          = edges.first + bin_width * (high_sum - low_sum) / (2.0 * max_counts);
-  } else {
-    median = m_binning.getBin(0);
+  // The bins before low_i add up to low_sum, the rest to high_sum. The median is inside the bin that was added the last
+  // to the bigger of the two sums.
+  auto    median_i     = high_sum >= low_sum ? low_i : high_i;
+  auto    edges        = m_binning.getBinEdges(median_i);
+  auto    bin_width    = edges.second - edges.first;
+  auto    median_count = (*m_counts)[median_i];
+  VarType median       = high_sum >= low_sum ? edges.first : edges.second;
+  if (median_count > 0) {
+    median += bin_width * (high_sum - low_sum) / (2.0 * median_count);
   }
 
   return std::make_tuple(mean, median, sigma);
-- 
2.43.0


From 32eccde864445e45174a77d6af9394e15643b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:35 +0000
Subject: [PATCH 34/89] fix: product of polynomials without coefficients

The derivative of a constant has no coefficients, and the product of two of
them asked for a vector of 2^64-1 elements.
---
 MathUtils/src/lib/function/multiplication.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 33fd76c..2d92d99 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -40,6 +40,9 @@ std::unique_ptr<Function> multiplyPolynomials(const Function& f1, const Function
   const Polynomial&   p2 = dynamic_cast<const Polynomial&>(f2);
   std::vector<double> c1 = p1.getCoefficients();
   std::vector<double> c2 = p2.getCoefficients();
+  if (c1.empty() || c2.empty()) {
+    return std::unique_ptr<Polynomial>(new Polynomial{{0.}});
+  }
   std::vector<double> resultCoef(c1.size() + c2.size() - 1, 0.);
   for (size_t i = 0; i < c1.size(); ++i)
     for (size_t j = 0; j < c2.size(); ++j)
-- 
2.43.0


From 7a6d41a74d1d3a08ce211d277051a2c62e72b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:35 +0000
Subject: [PATCH 35/89] fix: product of Piecewise functions which do not
 overlap

The knots were read past their end when the ranges are disjoint, and a
Piecewise without any function was returned when they touch.
---
 MathUtils/src/lib/function/multiplication.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 2d92d99..db1af6c 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -70,11 +70,11 @@ std::vector<double> overlappingKnots(const std::vector<double>& knots1, const st
   while (p1Iter != knots1.end() && p2Iter != knots2.end()) {
     if (!started) {
       if (*p1Iter < *p2Iter) {
-        if (*(++p1Iter) > *p2Iter) {
+        if (++p1Iter != knots1.end() && *p1Iter > *p2Iter) {
           started = true;
         }
       } else {
-        if (*p1Iter < *(++p2Iter)) {
+        if (++p2Iter != knots2.end() && *p1Iter < *p2Iter) {
           started = true;
         }
       }
@@ -98,7 +98,7 @@ std::unique_ptr<Function> multiplyPiecewises(const Function& f1, const Function&
 
   auto knots = overlappingKnots(p1.getKnots(), p2.getKnots());
 
-  if (knots.empty()) {
+  if (knots.size() < 2) {
     return std::unique_ptr<Function>{new Polynomial{{0.}}};
   }
 
-- 
2.43.0


From d2b1be7aa5f4ab13724870dc8f84a1645b7848c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:35 +0000
Subject: [PATCH 36/89] fix: value of a Piecewise for a NaN and of one without
 functions

Both were looking for a function outside of the vector.
---
 MathUtils/src/lib/function/Piecewise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/function/Piecewise.cpp b/MathUtils/src/lib/function/Piecewise.cpp
index f53b2e9..240887c 100644
--- a/MathUtils/src/lib/function/Piecewise.cpp
+++ b/MathUtils/src/lib/function/Piecewise.cpp
@@ -70,7 +70,7 @@ const std::vector<std::unique_ptr<Function>>& Piecewise::getFunctions() const {
 
 double Piecewise::operator()(const double x) const {
   auto knotsBegin = m_knots.begin();
-  if (x < *knotsBegin) {
+  if (m_functions.empty() || !(x >= *knotsBegin)) {
     return 0;
   }
   if (x == *knotsBegin) {
-- 
2.43.0


From 5d0c025599d6bc996df10455ba60fc1a3fc6053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:03 +0000
Subject: [PATCH 37/89] fix: interpolation of no point and of a single one

Without points the vectors were read past their end, and so were the functions
of the result when there was a single point. Repetitions of a single point were
extrapolated as zero.
---
 .../src/lib/interpolation/interpolation.cpp    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index ad5a4f7..755a61e 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -25,6 +25,8 @@
 #include "MathUtils/interpolation/interpolation.h"
 #include "ElementsKernel/Logging.h"
 #include "MathUtils/function/FunctionAdapter.h"
+#include "MathUtils/function/Piecewise.h"
+#include "MathUtils/function/Polynomial.h"
 #include "implementations.h"
 #include <AlexandriaKernel/memory_tools.h>
 
@@ -45,9 +47,8 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
                                    << "size: X=" << x.size() << ", Y=" << y.size();
   }
 
-  if (x.size() == 1 && extrapolate) {
-    auto c = y.front();
-    return make_unique<FunctionAdapter>([c](double) { return c; });
+  if (x.empty()) {
+    throw InterpolationException() << "Can not interpolate an empty list of values";
   }
 
   // We remove any duplicate lines and we check that we have only increasing
@@ -75,6 +76,17 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
     final_y.emplace_back(y[i]);
   }
 
+  if (final_x.size() == 1) {
+    auto c = final_y.front();
+    if (extrapolate) {
+      return make_unique<FunctionAdapter>([c](double) { return c; });
+    }
+    // As simple_interpolation does, only the knot itself has a value
+    std::vector<std::unique_ptr<Function>> functions;
+    functions.emplace_back(new Polynomial{{c}});
+    return std::unique_ptr<Function>(new Piecewise{{final_x.front(), final_x.front()}, std::move(functions)});
+  }
+
   switch (type) {
   case InterpolationType::LINEAR:
     return linearInterpolation(final_x, final_y, extrapolate);
-- 
2.43.0


From bb7a8136eb995ab75d619358e00a3f26e6b23176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:03 +0000
Subject: [PATCH 38/89] fix: simple_interpolation at a step takes the mean of
 the values

It was averaging the position and the value.
---
 MathUtils/src/lib/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index 755a61e..1557b77 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -134,7 +134,7 @@ double simple_interpolation(double x, const std::vector<double>& xp, const std::
   double y1 = yp[i], y0 = yp[i - 1];
 
   if (x1 == x0) {
-    return (x1 + y1) / 2.;
+    return (y0 + y1) / 2.;
   }
 
   double coef1 = (y1 - y0) / (x1 - x0);
-- 
2.43.0


From 6ee70d9b0c1344cb23ea36607538b5f7e63913d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:03 +0000
Subject: [PATCH 39/89] fix: linear interpolation of steps is finite

The value at a step at the first knot, and any integral over a step, was NaN.
---
 MathUtils/src/lib/interpolation/linear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/linear.cpp b/MathUtils/src/lib/interpolation/linear.cpp
index 9943615..f53eb21 100644
--- a/MathUtils/src/lib/interpolation/linear.cpp
+++ b/MathUtils/src/lib/interpolation/linear.cpp
@@ -34,7 +34,8 @@ namespace MathUtils {
 std::unique_ptr<Function> linearInterpolation(const std::vector<double>& x, const std::vector<double>& y, bool extrapolate) {
   std::vector<std::unique_ptr<Function>> functions{};
   for (size_t i = 0; i < x.size() - 1; i++) {
-    double coef1 = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
+    // A step has no width: its slope would not be finite
+    double coef1 = (x[i + 1] == x[i]) ? 0. : (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
     double coef0 = y[i] - coef1 * x[i];
     functions.push_back(std::unique_ptr<Function>(new Polynomial{{coef0, coef1}}));
   }
-- 
2.43.0


From fb1235b5e0ea17d37e227fe4d530fc8bdfed7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:03 +0000
Subject: [PATCH 40/89] fix: spline interpolation rejects step functions

As documented; the coefficients were not finite.
---
 MathUtils/src/lib/interpolation/interpolation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index 1557b77..22fe7d2 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -67,6 +67,9 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
         logger.warn() << "Ignoring duplicate pair (" << x[i] << ", " << y[i] << ") during interpolation";
         continue;
       }
+      if (type == InterpolationType::CUBIC_SPLINE) {
+        throw InterpolationException() << "Step functions can not be interpolated with splines: two values for X=" << x[i];
+      }
     }
     if (x[i] < x[i - 1]) {
       throw InterpolationException() << "Only increasing X values are supported "
-- 
2.43.0


From 4e91df3e482dc70aee019aba2691afaef35c61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:03 +0000
Subject: [PATCH 41/89] fix: grid interpolation at unknown discrete values

The knots were read past their end when the value is not one of them.
---
 .../MathUtils/interpolation/_impl/GridInterpolation.icpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index 5b69f94..e822fc4 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -61,7 +61,7 @@ template <typename T>
 struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::value>::type> {
   static double interpolate(const T x, const std::vector<T>& knots, const std::vector<double>& values, bool /*extrapolate*/) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return values[i];
   }
@@ -70,7 +70,7 @@ struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::
   static double interpolate(const T x, const std::vector<T>& knots,
                             const std::vector<std::unique_ptr<InterpN<Rest...>>>& interpolators, bool, const Rest... rest) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return (*interpolators[i])(rest...);
   }
-- 
2.43.0


From be61b96557d0052ff0d1b33f75e5247c2d0d27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:03 +0000
Subject: [PATCH 42/89] fix: grid interpolation rejects unsorted knots on all
 axes

The order of the knots of the last axis was not verified.
---
 MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index e822fc4..6fdc042 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -103,6 +103,7 @@ public:
       throw InterpolationException() << "The size of the grid and the size of the values do not match: " << m_knots.size()
                                      << " != " << m_values.size();
     }
+    InterpolationImpl<T>::checkOrder(m_knots);
   }
 
   /**
-- 
2.43.0


From dcee07be132c10ce9f49c10a118afbd945a30dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:59 +0000
Subject: [PATCH 43/89] fix: AdaptativeIntegration ends when the integral
 vanishes

The relative difference of two approximations of zero does not get small: the
order was increased until the number of samples overflowed, and for ever after.
---
 .../MathUtils/numericalIntegration/AdaptativeIntegration.h  | 6 +++++-
 .../numericalIntegration/_impl/AdaptativeIntegration.icpp   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/numericalIntegration/AdaptativeIntegration.h b/MathUtils/MathUtils/numericalIntegration/AdaptativeIntegration.h
index e4f00cd..c29a2b1 100644
--- a/MathUtils/MathUtils/numericalIntegration/AdaptativeIntegration.h
+++ b/MathUtils/MathUtils/numericalIntegration/AdaptativeIntegration.h
@@ -43,7 +43,9 @@ namespace MathUtils {
  * Then it double the sampling and recompute the integral computation and loop,
  * increasing the order.
  * The process stops when the relative difference between one approximation and
- * the next is smaller than the prescription.
+ * the next is smaller than the prescription. This may never happen (for
+ * instance when the integral is zero and the approximations are only rounding
+ * errors), so the sampling is not increased any more once it reaches 2^24 points.
  *
  * @tparam quadrature The numerical quadrature used to compute the integral
  * approximation.
@@ -79,6 +81,8 @@ public:
   double operator()(const Function& function, double min, double max) override;
 
 private:
+  enum { s_maximal_order = 24 };
+
   Quadrature m_quadrature{};
   double     m_relative_precion;
   int        m_initial_order;
diff --git a/MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp b/MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp
index a17cadd..4c57871 100644
--- a/MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp
+++ b/MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp
@@ -40,7 +40,7 @@ double AdaptativeIntegration<Quadrature>::operator()(const Function& function, d
     value_order_m   = value_order_m_1;
     value_order_m_1 = m_quadrature(function, min, max, value_order_m, m);
     diff            = value_order_m_1 - value_order_m;
-  } while (std::abs(diff / value_order_m) > m_relative_precion);
+  } while (std::abs(diff / value_order_m) > m_relative_precion && m < s_maximal_order);
 
   return value_order_m_1;
 }
-- 
2.43.0


From cdf00bea576ac52f08cf4dacf1e46178171b120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 44/89] fix: the first and last samples of a PDF belong to the
 modes that reach them

They were left out, reported later as modes of their own.
---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 81689d8..970f91d 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -71,7 +71,11 @@ std::pair<size_t, size_t> catchPeak(const std::vector<double>& pdf, size_t cente
 
   for (size_t index = 0; index <= center_index; ++index) {
     size_t position = center_index - index;
-    if (position == 0 || pdf[position] == 0) {
+    if (position == 0) {
+      min_x = 0;
+      break;
+    }
+    if (pdf[position] == 0) {
       break;
     }
     if ((pdf[position] < threshold && pdf[position - 1] >= pdf[position])) {
@@ -82,7 +86,11 @@ std::pair<size_t, size_t> catchPeak(const std::vector<double>& pdf, size_t cente
   }
 
   for (size_t position = center_index; position <= pdf.size(); ++position) {
-    if (position == pdf.size() - 1 || pdf[position] == 0) {
+    if (position == pdf.size() - 1) {
+      max_x = position;
+      break;
+    }
+    if (pdf[position] == 0) {
       break;
     }
     if ((pdf[position] < threshold && pdf[position + 1] >= pdf[position])) {
-- 
2.43.0


From 8a3e4fb50a86c78dd230a4379b6feb71f99ac168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 45/89] fix: number of modes extracted from a PDF

More modes than requested were returned by extractNBigestModes, and modes without
area, at a NaN, once the PDF had no more of them.
---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 970f91d..0a0f437 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -187,6 +187,10 @@ std::vector<ModeInfo> extractNHighestModes(std::vector<double>& x_sampling, std:
 
   for (size_t idx = 0; idx < n; ++idx) {
     auto peak_index = findMaximumIndex(pdf_xy.second);
+    if (!(pdf_xy.second[peak_index] > 0.)) {
+      // There is nothing left
+      break;
+    }
     auto min_max    = catchPeak(pdf_xy.second, peak_index, merge_ratio);
     auto mean_area  = avgArea(pdf_xy, min_max.first, min_max.second);
     auto max_inter  = getInterpolationAround(pdf_xy, peak_index);
@@ -209,11 +213,15 @@ std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::
 
   std::vector<ModeInfo> result{};
 
-  bool   out  = false;
+  bool   out  = n == 0;
   size_t loop = 0;
   while (!out) {
 
-    auto   peak_index       = findMaximumIndex(pdf_xy.second);
+    auto peak_index = findMaximumIndex(pdf_xy.second);
+    if (!(pdf_xy.second[peak_index] > 0.)) {
+      // There is nothing left
+      break;
+    }
     auto   min_max          = catchPeak(pdf_xy.second, peak_index, merge_ratio);
     auto   mean_area        = avgArea(pdf_xy, min_max.first, min_max.second);
     auto   max_sample       = pdf_xy.first[peak_index];
@@ -230,6 +238,9 @@ std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::
 
     if (iter_mode != result.end()) {
       result.insert(iter_mode, new_mode);
+      if (result.size() > n) {
+        result.pop_back();
+      }
     } else if (result.size() < n) {
       result.push_back(new_mode);
     }
-- 
2.43.0


From 7974016e7861a165535c7855192b9511bf7a3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 46/89] fix: modes of PDFs with less than three samples

The samples were read past their end.
---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 0a0f437..f63989b 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -47,6 +47,16 @@ std::pair<std::vector<double>, std::vector<double>> getXYs(const XYDataset::XYDa
   return std::make_pair(xs, ys);
 }
 
+/// Modes need at least two samples, as their area depends on the distance between them
+void checkSampling(const std::vector<double>& x_sampling, const std::vector<double>& pdf_sampling) {
+  if (x_sampling.size() != pdf_sampling.size()) {
+    throw Elements::Exception("PDF mode extraction: X and PDF sampling do not have the same length.");
+  }
+  if (x_sampling.size() < 2) {
+    throw Elements::Exception("PDF mode extraction: at least two samples are required.");
+  }
+}
+
 size_t findMaximumIndex(const std::vector<double>& pdf) {
   double max       = -1;
   size_t index     = 0;
@@ -136,6 +146,11 @@ double getInterpolationAround(const std::pair<std::vector<double>, std::vector<d
     throw Elements::Exception("getInterpolationAround: x_index out of range.");
   }
 
+  // a parabola needs three points
+  if (pdf.first.size() < 3) {
+    return pdf.first[x_index];
+  }
+
   // ensure we are not on the border
   if (x_index == 0) {
     x_index += 1;
@@ -182,6 +197,7 @@ std::pair<std::vector<double>, std::vector<double>> flatternPeak(const std::pair
 
 std::vector<ModeInfo> extractNHighestModes(std::vector<double>& x_sampling, std::vector<double>& pdf_sampling, double merge_ratio,
                                            size_t n) {
+  checkSampling(x_sampling, pdf_sampling);
   std::vector<ModeInfo> result{};
   auto                  pdf_xy = std::make_pair(x_sampling, pdf_sampling);
 
@@ -208,6 +224,7 @@ std::vector<ModeInfo> extractNHighestModes(const XYDataset::XYDataset& pdf, doub
 
 std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::vector<double>& pdf_sampling, double merge_ratio,
                                           size_t n) {
+  checkSampling(x_sampling, pdf_sampling);
   auto   pdf_xy     = std::make_pair(x_sampling, pdf_sampling);
   double total_area = avgArea(pdf_xy, 0, x_sampling.size() - 1).second;
 
-- 
2.43.0


From b741f932b7e216e1e88086ac65a73bae7e25e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 47/89] fix: InverseCumulative verifies the number of knots and
 values

The number of knots was compared with itself, and not at all for discrete
distributions, and both were read past their end.
---
 .../MathUtils/helpers/_impl/InverseCumulative.icpp  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index ffc9e8c..fef5d47 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -33,8 +33,11 @@ class InverseCumulative<TKnot, typename std::enable_if<std::is_floating_point<TK
 public:
   InverseCumulative(std::vector<TKnot> knots, std::vector<double> pdf)
       : m_knots(std::move(knots)), m_pdf(std::move(pdf)), m_cdf(m_pdf.size()) {
-    if (m_knots.size() != m_knots.size()) {
-      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << knots.size();
+    if (m_knots.size() != m_pdf.size()) {
+      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_pdf.size() << " != " << m_knots.size();
+    }
+    if (m_knots.empty()) {
+      throw Elements::Exception() << "A PDF needs at least one knot";
     }
     if (!std::is_sorted(m_knots.begin(), m_knots.end())) {
       throw Elements::Exception() << "Knots must be sorted";
@@ -133,6 +136,12 @@ template <typename TKnot>
 class InverseCumulative<TKnot, typename std::enable_if<!std::is_floating_point<TKnot>::value>::type> {
 public:
   InverseCumulative(std::vector<TKnot> knots, std::vector<double> pdf) : m_knots(std::move(knots)), m_cdf(std::move(pdf)) {
+    if (m_knots.size() != m_cdf.size()) {
+      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_cdf.size() << " != " << m_knots.size();
+    }
+    if (m_knots.empty()) {
+      throw Elements::Exception() << "A PDF needs at least one knot";
+    }
     // Compute cumulative and normalize
     for (std::size_t i = 1; i < m_cdf.size(); ++i) {
       m_cdf[i] += m_cdf[i - 1];
-- 
2.43.0


From 124002c0fad8680bae56d00e67ca99888a1c3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:54 +0000
Subject: [PATCH 48/89] fix: InverseCumulative is accurate, and does not abort,
 far from zero

The segment of the CDF was solved in absolute coordinates, cancelling most of
the digits when the knots are far from zero compared to their distance. The
assertions were then stopping the program for valid distributions, and the
result could be after the last knot.
---
 .../helpers/_impl/InverseCumulative.icpp      | 40 +++++--------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index fef5d47..2b88522 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -18,9 +18,8 @@
 
 #ifdef INVERSE_CUMULATIVE_IMPL
 
-#include "MathUtils/helpers/Solvers.h"
 #include <algorithm>
-#include <cassert>
+#include <cmath>
 
 namespace Euclid {
 namespace MathUtils {
@@ -81,7 +80,7 @@ public:
     // If p0 == p1 we are on a uniform area
     if (p0 == p1) {
       double interval_p = (unnormed_p - cdf0) / (cdf1 - cdf0);
-      return (x1 - x0) * interval_p + x0;
+      return std::min((x1 - x0) * interval_p + x0, x1);
     }
 
     // If both cdf are the same, then the interval has 0 probability.
@@ -91,36 +90,17 @@ public:
       return x0;
     }
 
-    // Since we assume a linear interpolation, we know that
-    // p0 = a * x0 + b
-    // p1 = a * x1 + b
-    // So we can solve for a and b
+    // Since we assume a linear interpolation, we know that, at a distance d from x0,
+    // pdf = p0 + a * d
     const double a = (p1 - p0) / (x1 - x0);
-    const double b = p0 - a * x0;
-
-    assert(std::abs(a * x0 + b - p0) < 1e-8);
-    assert(std::abs(a * x1 + b - p1) < 1e-8);
 
     // The CDF is the integral, so we also know that
-    // cdf0 = a/2 * x0^2 + b * x0 + c
-    // cdf1 = a/2 * x1^2 + b * x1 + c
-    // We already know a and b, so it is easy to solve for c
-    const double c = cdf0 - (a / 2.) * (x0 * x0) - b * x0;
-
-    // Double check that the equation passes through the CDF at the limits
-    // assert(std::abs((a / 2.) * (x0 * x0) + b * x0 + c - cdf0) < 1e-4);
-    // assert(std::abs((a / 2.) * (x1 * x1) + b * x1 + c - cdf1) < 1e-4);
-
-    // We have the equation, so we now need to solve x for p
-    double s0, s1;
-    std::tie(s0, s1) = solveSquare(a / 2, b, c, unnormed_p);
-
-    // Pick the possible result that lies within [x0, x1]
-    if (s0 >= x0 - 1e-8 && s0 <= x1 + 1e-8) {
-      return s0;
-    }
-    assert(s1 >= x0 - 1e-8 && s1 <= x1 + 1e-8);
-    return s1;
+    // cdf = cdf0 + p0 * d + a/2 * d^2
+    // We need to solve d for p. Only one of the solutions lies within [x0, x1], and this way of writing it
+    // does not suffer from cancellations.
+    const double q = unnormed_p - cdf0;
+    const double d = 2. * q / (p0 + std::sqrt(std::max(0., p0 * p0 + 2. * a * q)));
+    return std::min(x0 + d, x1);
   }
 
 private:
-- 
2.43.0


From 5eafc17a797117ca02c07074c2b7207f353e0c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 49/89] fix: output of empty vector cells does not go past
 their end

---
 Table/src/lib/Row.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/Row.cpp b/Table/src/lib/Row.cpp
index ae37622..2f529b7 100644
--- a/Table/src/lib/Row.cpp
+++ b/Table/src/lib/Row.cpp
@@ -46,9 +46,10 @@ namespace std {
 template <typename T>
 std::ostream& operator<<(std::ostream& s, const std::vector<T>& v) {
   auto it = v.begin();
-  if (it != v.end()) {
-    s << *it;
+  if (it == v.end()) {
+    return s;
   }
+  s << *it;
   while (++it != v.end()) {
     s << ',' << *it;
   }
-- 
2.43.0


From 853f5d34813f3a2432c62185ae059b1147dd4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 50/89] fix: the first cell of a row can be a quoted string,
 too

---
 Table/src/lib/AsciiReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index 667e023..d7728a1 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -214,7 +214,7 @@ Table AsciiReader::readImpl(long rows) {
       size_t                      count{0};
       std::vector<Row::cell_type> values{};
       std::string                 token;
-      line_stream >> token;
+      line_stream >> boost::io::quoted(token);
       while (line_stream) {
         if (count >= m_column_info->size()) {
           throw Elements::Exception() << "Line with wrong number of cells: " << line;
-- 
2.43.0


From 32cab1e0fe4fd02d0608f84b73322a92bb9f6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 51/89] fix: units with whitespaces or nothing in their
 parentheses

---
 Table/src/lib/AsciiReaderHelper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index d8f0b4f..8878dda 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -26,6 +26,7 @@
 #include "ElementsKernel/Exception.h"
 #include "ElementsKernel/Logging.h"
 #include "NdArray/NdArray.h"
+#include <algorithm>
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <boost/tokenizer.hpp>
@@ -142,8 +143,15 @@ std::map<std::string, ColumnDescription> autoDetectColumnDescriptions(std::istre
           if (line_stream) {
             if (boost::starts_with(token, "(")) {
               unit = token;
+              // The unit can contain whitespaces and parentheses
+              while (std::count(unit.begin(), unit.end(), '(') > std::count(unit.begin(), unit.end(), ')') &&
+                     line_stream >> boost::io::quoted(token)) {
+                unit += ' ' + token;
+              }
               unit.erase(unit.begin());
-              unit.erase(unit.end() - 1);
+              if (!unit.empty()) {
+                unit.erase(unit.end() - 1);
+              }
               line_stream >> boost::io::quoted(token);
             }
           }
-- 
2.43.0


From 508f38fd17baa9fca906fb8cda795781049a7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 52/89] fix: StreamRewinder restores the state and the position
 of the stream

---
 Table/src/lib/AsciiReaderHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.h b/Table/src/lib/AsciiReaderHelper.h
index f02e67b..32d5bdf 100644
--- a/Table/src/lib/AsciiReaderHelper.h
+++ b/Table/src/lib/AsciiReaderHelper.h
@@ -46,7 +46,7 @@ namespace Table {
  */
 class StreamRewinder {
 public:
-  explicit StreamRewinder(std::istream& stream) : m_stream(stream), m_state(stream.exceptions()), m_position(stream.tellg()) {}
+  explicit StreamRewinder(std::istream& stream) : m_stream(stream), m_state(stream.rdstate()), m_position(stream.tellg()) {}
   ~StreamRewinder() {
     m_stream.clear();
     m_stream.seekg(m_position);
@@ -56,7 +56,7 @@ public:
 private:
   std::istream&     m_stream;
   std::ios::iostate m_state;
-  int               m_position;
+  std::streampos    m_position;
 };
 
 /**
-- 
2.43.0


From 5571563bbc96e16453a150f36693e79a5ee260a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 53/89] fix: the case of boolean cells is ignored, as
 documented

---
 Table/src/lib/AsciiReaderHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 8878dda..f0107c7 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -292,10 +292,11 @@ NdArray<T> convertStringToNdArray(const std::string& str) {
 Row::cell_type convertToCellType(const std::string& value, std::type_index type) {
   try {
     if (type == typeid(bool)) {
-      if (value == "true" || value == "t" || value == "yes" || value == "y" || value == "1") {
+      auto lower = boost::to_lower_copy(value);
+      if (lower == "true" || lower == "t" || lower == "yes" || lower == "y" || lower == "1") {
         return Row::cell_type{true};
       }
-      if (value == "false" || value == "f" || value == "no" || value == "n" || value == "0") {
+      if (lower == "false" || lower == "f" || lower == "no" || lower == "n" || lower == "0") {
         return Row::cell_type{false};
       }
     } else if (type == typeid(int32_t)) {
-- 
2.43.0


From 4cda4357f59a225008bf5842779d8343368c5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 54/89] fix: reading the comment of an ASCII table does not
 lose its column descriptions

---
 Table/src/lib/AsciiReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index d7728a1..24236b6 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -182,6 +182,8 @@ std::string AsciiReader::getComment() {
 
   m_reading_started = true;
   auto& in          = m_stream_holder->ref();
+  // The comment can contain the descriptions of the columns
+  StreamRewinder rewinder{in};
   while (in && _peekLine(in).compare(0, m_comment.size(), m_comment) == 0) {
     std::string line;
     getline(in, line);
-- 
2.43.0


From 38b74de368e7ad0d9f686f4fc380bc6c04ed033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 55/89] fix: names of columns that are only described, when
 quoted or followed by tabs

---
 Table/src/lib/AsciiReaderHelper.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index f0107c7..3ce55b5 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -200,14 +200,11 @@ std::vector<std::string> autoDetectColumnNames(std::istream& in, const std::stri
         last_comment = line;
       }
       if (boost::starts_with(line, "Column:")) {
-        std::string temp = line;
-        temp.erase(0, 7);
-        boost::trim(temp);
-        auto space_i = temp.find(' ');
-        if (space_i > 0) {
-          temp = temp.substr(0, space_i);
-        }
-        desc_names.emplace_back(std::move(temp));
+        std::string name{};
+        std::stringstream(line.substr(7)) >> boost::io::quoted(name);
+        desc_names.emplace_back(std::move(name));
+        // This is not the line with the column names
+        last_comment.clear();
       }
     } else {
       break;  // here we reached the first data line
-- 
2.43.0


From c4f552712b0534830dd7c6f5f161f7aacb7771dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 56/89] fix: negative shapes of array cells are refused

---
 Table/src/lib/AsciiReaderHelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 3ce55b5..52e2f3d 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -279,6 +279,10 @@ NdArray<T> convertStringToNdArray(const std::string& str) {
   auto shape_i   = convertStringToVector<int32_t>(shape_str);
   auto data      = convertStringToVector<T>(str.substr(closing_char + 1));
 
+  if (std::any_of(shape_i.begin(), shape_i.end(), [](int32_t i) { return i < 0; })) {
+    throw Elements::Exception() << "Negative size in the shape of a NdArray: " << shape_str;
+  }
+
   std::vector<size_t> shape_u;
   std::copy(shape_i.begin(), shape_i.end(), std::back_inserter(shape_u));
   return NdArray<T>(shape_u, data);
-- 
2.43.0


From 8c98ae1c8b55be8fe35b7594bd19c40f28cf41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 57/89] fix: text that overflows a 64 bit integer is refused by
 CastVisitor

---
 Table/Table/CastVisitor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Table/Table/CastVisitor.h b/Table/Table/CastVisitor.h
index a3eba6d..8569bd0 100644
--- a/Table/Table/CastVisitor.h
+++ b/Table/Table/CastVisitor.h
@@ -28,6 +28,7 @@
 #include "ElementsKernel/Exception.h"
 #include <boost/tokenizer.hpp>
 #include <boost/variant/static_visitor.hpp>
+#include <cerrno>
 #include <cmath>
 #include <sstream>
 #include <type_traits>
@@ -150,10 +151,14 @@ public:
 
   int64_t operator()(const std::string& from) const {
     char*   endptr = nullptr;
+    errno          = 0;
     int64_t value  = std::strtoll(from.c_str(), &endptr, 10);
     if (endptr == from.c_str()) {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(int64_t).name();
     }
+    if (errno == ERANGE) {
+      throw Elements::Exception() << "CastVisitor overflows converting the string '" << from << "' to " << typeid(int64_t).name();
+    }
     return value;
   }
 };
-- 
2.43.0


From 18a5ff30d551f961f7e270ef0f9ba476e89c9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 58/89] fix: dataset files are recognised without a last
 newline, and with blank lines and comments like those the reader accepts

---
 XYDataset/src/lib/AsciiParser.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index e3a3dd6..5150ade 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -131,13 +131,12 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
   if (sfile) {
     std::string line{};
     // Convention: read until found first non empty line, removing empty lines.
-    // Escape also the dataset name and comment lines
-    boost::regex  expression("\\s*#.*");
-    boost::smatch s_match;
-    while ((line.empty() || boost::regex_match(line, s_match, expression)) && sfile.good()) {
-      std::getline(sfile, line);
+    // Escape also the dataset name and comments
+    while (line.empty() && std::getline(sfile, line)) {
+      line = line.substr(0, line.find('#'));
+      boost::trim(line);
     }
-    if (sfile.good()) {
+    if (!line.empty()) {
       // We should have 2 double values only on one line
       try {
         std::stringstream ss(line);
@@ -154,7 +153,7 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
       } catch (...) {
         is_a_dataset_file = false;
       }
-    }  // Eof sfile.good()
+    }  // Eof line
   }    // Eof sfile
   return is_a_dataset_file;
 }
-- 
2.43.0


From 8a8b5d0bfb653fa5c39dad755b30f849501163db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 59/89] fix: overridden column names can be duplicated in the
 stream, as documented

---
 Table/src/lib/AsciiReader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index 24236b6..1b3ab37 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -129,7 +129,16 @@ void AsciiReader::readColumnInfo() {
                                 << m_column_types.size() << ")";
   }
 
-  auto auto_names = autoDetectColumnNames(in, m_comment, columns_number);
+  std::vector<std::string> auto_names{};
+  try {
+    auto_names = autoDetectColumnNames(in, m_comment, columns_number);
+  } catch (const Elements::Exception&) {
+    // Duplicate names in the stream do not matter if they are overridden
+    if (m_column_names.empty()) {
+      throw;
+    }
+    auto_names = m_column_names;
+  }
   auto auto_desc  = autoDetectColumnDescriptions(in, m_comment);
 
   std::vector<std::string>     names{};
-- 
2.43.0


From 966773916e10953e2c081eaf0bc66fb1206829f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 60/89] fix: the words of the last comment do not prevent
 reading a dataset file

---
 XYDataset/src/lib/AsciiParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index 5150ade..ec79ec4 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -112,7 +112,7 @@ std::unique_ptr<XYDataset> AsciiParser::getDataset(const std::string& file) {
   // Check file exists
   if (sfile) {
     // Read file into a Table object
-    auto table = Table::AsciiReader{sfile}.fixColumnTypes({typeid(double), typeid(double)}).read();
+    auto table = Table::AsciiReader{sfile}.fixColumnNames({"X", "Y"}).fixColumnTypes({typeid(double), typeid(double)}).read();
     // Put the Table data into vector pair
     std::vector<std::pair<double, double>> vector_pair;
     for (auto row : table) {
-- 
2.43.0


From 2b8c265d01372a9e74ae757837acfe44a1bb32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 61/89] fix: photometry with less thresholds than filters is
 refused instead of read out of bounds

---
 SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp b/SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp
index 1eadea6..adc91b3 100644
--- a/SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp
+++ b/SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp
@@ -70,6 +70,11 @@ PhotometryAttributeFromRow::PhotometryAttributeFromRow(
     m_filter_name_vector_ptr->push_back(a_filter_name_map.first);
   }
 
+  if (m_n_map.size() < filter_name_mapping.size()) {
+    throw Elements::Exception() << "The upper limit thresholds of some filters are missing: " << m_n_map.size()
+                                << " thresholds for " << filter_name_mapping.size() << " filters";
+  }
+
   // default the m_convert_from_mag
   if (m_convert_from_mag.size() != m_n_map.size()) {
     m_convert_from_mag = std::vector<std::pair<std::string, bool>>();
-- 
2.43.0


From dbc1a4d40687067accc766ce08dae0085b0efe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 62/89] fix: registering configurations which depend on each
 other does not recurse for ever

---
 Configuration/Configuration/_impl/ConfigManager.icpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Configuration/Configuration/_impl/ConfigManager.icpp b/Configuration/Configuration/_impl/ConfigManager.icpp
index 9287239..304bdbc 100644
--- a/Configuration/Configuration/_impl/ConfigManager.icpp
+++ b/Configuration/Configuration/_impl/ConfigManager.icpp
@@ -33,8 +33,16 @@ void ConfigManager::registerConfiguration() {
                                 << "for configuration registration";
   }
   // If the configuration is already registered we do nothing
-  if (m_config_dictionary[{typeid(T)}] == nullptr) {
-    m_config_dictionary[{typeid(T)}].reset(new T{m_id});
+  auto inserted = m_config_dictionary.emplace(typeid(T), nullptr);
+  if (inserted.second) {
+    // The entry is added before the construction, because the constructor may
+    // declare (directly or not) dependencies back to this configuration
+    try {
+      inserted.first->second.reset(new T{m_id});
+    } catch (...) {
+      m_config_dictionary.erase(inserted.first);
+      throw;
+    }
   }
 }
 
-- 
2.43.0


From 1e4b161c5caa5afb9ef18e8949a6837314147568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 63/89] fix: circular dependencies are reported also when other
 configurations depend on them

---
 Configuration/src/lib/ConfigManager.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index d86b658..7dc5c49 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -42,15 +42,22 @@ ConfigManager& ConfigManager::getInstance(long id) {
 
 ConfigManager::ConfigManager(long id) : m_id{id} {}
 
-std::vector<std::type_index>
+static std::vector<std::type_index>
 hasCircularDependencies(const std::map<std::type_index, std::set<std::type_index>>& dependency_map, const std::type_index& root,
-                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair) {
+                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair,
+                        std::set<std::type_index>&                                         visited) {
+
+  // Nothing new can be found by going again through a configuration we have
+  // already been to. This is what stops us in cycles the root is not part of.
+  if (!visited.insert(config_pair.first).second) {
+    return {};
+  }
 
   if (config_pair.second.find(root) != config_pair.second.end()) {
     return {root};
   }
   for (auto& config : config_pair.second) {
-    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config));
+    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config), visited);
     if (!found.empty()) {
       std::vector<std::type_index> result{config};
       for (auto& type : found) {
@@ -103,7 +110,8 @@ po::options_description ConfigManager::closeRegistration() {
 
   // Check for circular dependencies
   for (auto& pair : m_config_dictionary) {
-    auto found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first));
+    std::set<std::type_index> visited{};
+    auto found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first), visited);
     if (!found.empty()) {
       logger.error() << "Found circular dependency between configurations:";
       int count = 0;
-- 
2.43.0


From b6c56e8c8c3fb0ee1df89cb0623ccb0143da8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 64/89] fix: options with a longer name are not taken as
 wildcard options

---
 Configuration/src/lib/ProgramOptionsHelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Configuration/src/lib/ProgramOptionsHelper.cpp b/Configuration/src/lib/ProgramOptionsHelper.cpp
index 53099cf..2a6fa02 100644
--- a/Configuration/src/lib/ProgramOptionsHelper.cpp
+++ b/Configuration/src/lib/ProgramOptionsHelper.cpp
@@ -41,6 +41,10 @@ ProgramOptionsHelper::findWildcardNames(const std::vector<std::string>&
       if (boost::starts_with(pair.first, option_name)) {
         auto name = pair.first.substr(option_name.size());
         if (!name.empty()) {
+          // Another option, the name of which just starts the same way
+          if (name[0] != '-') {
+            continue;
+          }
           name = name.substr(1);
         }
         result.insert(name);
-- 
2.43.0


From c73c624ebdd85858b161ae098ddc2e42df563b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 65/89] fix: the format detection does not read past the header
 it got

---
 Configuration/src/lib/CatalogConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration/src/lib/CatalogConfig.cpp b/Configuration/src/lib/CatalogConfig.cpp
index cbf6c6b..27ec16f 100644
--- a/Configuration/src/lib/CatalogConfig.cpp
+++ b/Configuration/src/lib/CatalogConfig.cpp
@@ -98,8 +98,8 @@ FormatType autoDetectFormatType(fs::path file) {
     std::ifstream        in{file.string()};
     std::array<char, 80> first_header_array;
     in.read(first_header_array.data(), 80);
+    std::string first_header_str(first_header_array.data(), in.gcount());
     in.close();
-    std::string first_header_str{first_header_array.data()};
     if (first_header_str.compare(0, 9, "SIMPLE  =") == 0) {
       result = FormatType::FITS;
     }
-- 
2.43.0


From 769dcd13cac706a6b64cf54972def51c5dc60f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 66/89] fix: an excluded filter is excluded from all the lines
 of the mapping it is in

---
 Configuration/src/lib/PhotometricBandMappingConfig.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Configuration/src/lib/PhotometricBandMappingConfig.cpp b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
index 4a5f689..3819389 100644
--- a/Configuration/src/lib/PhotometricBandMappingConfig.cpp
+++ b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
@@ -136,9 +136,10 @@ void PhotometricBandMappingConfig::initialize(const UserValues& args) {
     }
   }
 
+  auto wrong_exclude_filters = exclude_filters;
   for (auto& pair : all_filter_name_mapping) {
     if (exclude_filters.count(pair.first) > 0) {
-      exclude_filters.erase(pair.first);
+      wrong_exclude_filters.erase(pair.first);
     } else {
       m_mapping_map.push_back(pair);
     }
@@ -146,9 +147,9 @@ void PhotometricBandMappingConfig::initialize(const UserValues& args) {
 
 
 
-  if (!exclude_filters.empty()) {
+  if (!wrong_exclude_filters.empty()) {
     std::stringstream wrong_filters{};
-    for (auto& f : exclude_filters) {
+    for (auto& f : wrong_exclude_filters) {
       wrong_filters << f << " ";
     }
     throw Elements::Exception() << "Wrong " << EXCLUDE_FILTER << " option value(s) : " << wrong_filters.str();
-- 
2.43.0


From 127472136d0b7de54e8e5c3757ef1da30c08d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 67/89] fix: the unit disk neighborhood has also the cells
 after the best matching one

---
 SOM/src/lib/NeihbourhoodFunc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SOM/src/lib/NeihbourhoodFunc.cpp b/SOM/src/lib/NeihbourhoodFunc.cpp
index f18e643..91dc232 100644
--- a/SOM/src/lib/NeihbourhoodFunc.cpp
+++ b/SOM/src/lib/NeihbourhoodFunc.cpp
@@ -29,8 +29,8 @@ Signature linearUnitDisk(double initial_radius) {
                     std::size_t total_iterations) -> double {
     double iter_factor = 1.0 * (total_iterations - iteration) / total_iterations;
     iter_factor        = iter_factor * iter_factor;  // We compare the squared distances
-    double x           = bmu.first - cell.first;
-    double y           = bmu.second - cell.second;
+    double x           = static_cast<double>(bmu.first) - cell.first;
+    double y           = static_cast<double>(bmu.second) - cell.second;
     double dist_square = x * x + y * y;
     if (dist_square < r_square * iter_factor) {
       return 1.;
-- 
2.43.0


From c7ed554afc7c2e23117b17615b535ff6617bc12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 68/89] fix: the sampling policies handle empty samples

---
 SOM/SOM/SamplingPolicy.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SOM/SOM/SamplingPolicy.h b/SOM/SOM/SamplingPolicy.h
index 7daf2c8..f191f73 100644
--- a/SOM/SOM/SamplingPolicy.h
+++ b/SOM/SOM/SamplingPolicy.h
@@ -63,6 +63,11 @@ public:
 
     m_end = end;
 
+    // There is nothing to sample from
+    if (begin == end) {
+      return end;
+    }
+
     std::random_device              rd;
     std::mt19937                    gen(rd());
     std::uniform_int_distribution<> dis(0, std::distance(begin, end) - 1);
@@ -126,6 +131,9 @@ public:
     // Set the current iterator at the beginning of the vector and return it
     m_current        = 0;
     m_iter_list_size = m_iter_list.size();
+    if (m_iter_list.empty()) {
+      return m_end;
+    }
     return m_iter_list[m_current];
   }
 
-- 
2.43.0


From e5d7d031482e655a9c5aa7c79da44aa3da621140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 69/89] fix: the u-matrix of a single cell does not use the
 minimum of no distances

---
 SOM/SOM/_impl/UMatrix.icpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SOM/SOM/_impl/UMatrix.icpp b/SOM/SOM/_impl/UMatrix.icpp
index bc4341e..8451aa8 100644
--- a/SOM/SOM/_impl/UMatrix.icpp
+++ b/SOM/SOM/_impl/UMatrix.icpp
@@ -74,7 +74,8 @@ UMatrix computeUMatrix(const SOM<ND, DistFunc>& som, UMatrixType type) {
       }
 
       // Populate the u-matrix cell
-      result(x, y) = type_func(dist_list);
+      // (the single cell of a 1x1 SOM has no neighbors to differ from)
+      result(x, y) = dist_list.empty() ? 0. : type_func(dist_list);
     }
   }
 
-- 
2.43.0


From 6e087058ef1580953e4af2688f27bf33bd0a5d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 70/89] fix: qualified names can be used by several threads

---
 XYDataset/XYDataset/QualifiedName.h | 2 +-
 XYDataset/src/lib/QualifiedName.cpp | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/XYDataset/XYDataset/QualifiedName.h b/XYDataset/XYDataset/QualifiedName.h
index bc7bf37..fada45d 100644
--- a/XYDataset/XYDataset/QualifiedName.h
+++ b/XYDataset/XYDataset/QualifiedName.h
@@ -198,7 +198,7 @@ private:
   std::vector<std::string> m_groups;
   std::string              m_dataset_name;
   std::string              m_qualified_name;
-  mutable size_t           m_hash{0};
+  size_t                   m_hash{0};
 
 };  // class QualifiedName
 
diff --git a/XYDataset/src/lib/QualifiedName.cpp b/XYDataset/src/lib/QualifiedName.cpp
index 7b76646..3b219ac 100644
--- a/XYDataset/src/lib/QualifiedName.cpp
+++ b/XYDataset/src/lib/QualifiedName.cpp
@@ -43,6 +43,7 @@ QualifiedName::QualifiedName(std::vector<std::string> groups_, std::string name)
     throw Elements::Exception() << "Invalid name : \"" << m_qualified_name.append(m_dataset_name) << "\"";
   }
   m_qualified_name.append(m_dataset_name);
+  m_hash = std::hash<std::string>{}(m_qualified_name);
 }
 
 std::vector<std::string> getGroups(const std::string& qualified_name) {
@@ -83,10 +84,6 @@ bool QualifiedName::belongsInGroup(const QualifiedName& group) const {
 }
 
 size_t QualifiedName::hash() const {
-  if (m_hash == 0) {
-    std::hash<std::string> stringHash;
-    m_hash = stringHash(qualifiedName());
-  }
   return m_hash;
 }
 
-- 
2.43.0


From a69e43752e182c7dcb4d68586f907428bf22e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 71/89] fix: polynomials can be used by several threads

---
 MathUtils/MathUtils/function/Polynomial.h |  4 ++++
 MathUtils/src/lib/function/Polynomial.cpp | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/MathUtils/MathUtils/function/Polynomial.h b/MathUtils/MathUtils/function/Polynomial.h
index 34fccf0..95720a8 100644
--- a/MathUtils/MathUtils/function/Polynomial.h
+++ b/MathUtils/MathUtils/function/Polynomial.h
@@ -52,6 +52,10 @@ public:
    */
   explicit Polynomial(std::vector<double> coefficients);
 
+  /// Copies the coefficients, but not the lazily initialized members, which
+  /// other threads may be setting
+  Polynomial(const Polynomial& other);
+
   /// Default destructor
   virtual ~Polynomial() = default;
 
diff --git a/MathUtils/src/lib/function/Polynomial.cpp b/MathUtils/src/lib/function/Polynomial.cpp
index 932420f..3cf17e0 100644
--- a/MathUtils/src/lib/function/Polynomial.cpp
+++ b/MathUtils/src/lib/function/Polynomial.cpp
@@ -32,6 +32,8 @@ namespace MathUtils {
 
 Polynomial::Polynomial(std::vector<double> coefficients) : m_coef{std::move(coefficients)} {}
 
+Polynomial::Polynomial(const Polynomial& other) : Differentiable(other), m_coef(other.m_coef) {}
+
 const std::vector<double>& Polynomial::getCoefficients() const {
   return m_coef;
 }
@@ -51,26 +53,31 @@ std::unique_ptr<Function> Polynomial::clone() const {
 }
 
 std::shared_ptr<Function> Polynomial::derivative() const {
-  if (!m_derivative) {
+  // Functions are shared between threads, so the lazy initialization is atomic
+  auto result = std::atomic_load(&m_derivative);
+  if (!result) {
     std::vector<double> derivCoef{};
     for (size_t i = 1; i < m_coef.size(); i++) {
       derivCoef.push_back(i * this->m_coef[i]);
     }
-    m_derivative.reset(new Polynomial{std::move(derivCoef)});
+    result.reset(new Polynomial{std::move(derivCoef)});
+    std::atomic_store(&m_derivative, result);
   }
-  return m_derivative;
+  return result;
 }
 
 std::shared_ptr<Function> Polynomial::indefiniteIntegral() const {
-  if (!m_indefIntegral) {
+  auto result = std::atomic_load(&m_indefIntegral);
+  if (!result) {
     std::vector<double> indefIntegCoef{};
     indefIntegCoef.push_back(0.);
     for (size_t i = 0; i < m_coef.size(); i++) {
       indefIntegCoef.push_back(m_coef[i] / (i + 1));
     }
-    m_indefIntegral.reset(new Polynomial{std::move(indefIntegCoef)});
+    result.reset(new Polynomial{std::move(indefIntegCoef)});
+    std::atomic_store(&m_indefIntegral, result);
   }
-  return m_indefIntegral;
+  return result;
 }
 
 }  // namespace MathUtils
-- 
2.43.0


From 370a4be7582eb2b8bf4ff6257b57508941f2cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:44 +0000
Subject: [PATCH 72/89] fix: FITS text columns of a single character are texts

---
 Table/src/lib/FitsReaderHelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/FitsReaderHelper.cpp b/Table/src/lib/FitsReaderHelper.cpp
index 073f9ef..369a51a 100644
--- a/Table/src/lib/FitsReaderHelper.cpp
+++ b/Table/src/lib/FitsReaderHelper.cpp
@@ -102,6 +102,8 @@ std::type_index binaryFormatToType(const std::string& format, const std::vector<
       return typeid(float);
     } else if (ft == 'D') {
       return typeid(double);
+    } else if (ft == 'A') {
+      return typeid(std::string);
     }
   }
   // Last, vectors
-- 
2.43.0


From a2f52e558ddd2ae6db7f54bdb9ccc62d0494b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:44 +0000
Subject: [PATCH 73/89] fix: FitsReader has no rows left after skipping past
 the end

---
 Table/src/lib/FitsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/FitsReader.cpp b/Table/src/lib/FitsReader.cpp
index 40a7d91..b068311 100644
--- a/Table/src/lib/FitsReader.cpp
+++ b/Table/src/lib/FitsReader.cpp
@@ -158,7 +158,7 @@ Table FitsReader::readImpl(long rows) {
 
 void FitsReader::skip(long rows) {
   readColumnInfo();
-  m_current_row += rows;
+  m_current_row += std::min(rows, m_total_rows - m_current_row + 1);
 }
 
 bool FitsReader::hasMoreRows() {
-- 
2.43.0


From 37460dda24269369aef5c3b25e1e67a27fb395eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:44 +0000
Subject: [PATCH 74/89] fix: writing a FITS column of empty vectors reads no
 element of them

---
 Table/src/lib/FitsWriterHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/FitsWriterHelper.cpp b/Table/src/lib/FitsWriterHelper.cpp
index 260d949..c2fb90a 100644
--- a/Table/src/lib/FitsWriterHelper.cpp
+++ b/Table/src/lib/FitsWriterHelper.cpp
@@ -183,7 +183,7 @@ std::vector<T> createSingleValueVectorColumnData(const Euclid::Table::Table& tab
   std::vector<T> result{};
   for (auto& row : table) {
     const auto& vec = boost::get<std::vector<T>>(row[column_index]);
-    result.push_back(vec.front());
+    result.push_back(vec.empty() ? T{} : vec.front());
   }
   return result;
 }
-- 
2.43.0


From da9f88ee9ed2f16b7f353ebd562f4c4cc773e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:44 +0000
Subject: [PATCH 75/89] fix: a FITS file whose first extension is an image is
 not a dataset file

---
 XYDataset/src/lib/FitsParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/XYDataset/src/lib/FitsParser.cpp b/XYDataset/src/lib/FitsParser.cpp
index 581f571..3dbe3f5 100644
--- a/XYDataset/src/lib/FitsParser.cpp
+++ b/XYDataset/src/lib/FitsParser.cpp
@@ -122,6 +122,9 @@ bool FitsParser::isDatasetFile(const std::string& file) {
     ELEMENTS_UNUSED auto&         temp      = dynamic_cast<const CCfits::Table&>(table_hdu);
   } catch (CCfits::FitsException& fits_except) {
     is_a_dataset_file = false;
+  } catch (std::bad_cast&) {
+    // The first extension is not a table
+    is_a_dataset_file = false;
   }
   return is_a_dataset_file;
 }
-- 
2.43.0


From ad61ce3ab88131c0e3202c26a423b3356e09b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:56 +0000
Subject: [PATCH 76/89] fix: an axis too far below zero is an invalid axis, not
 an assertion

---
 NdArray/NdArray/_impl/Operations.icpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/NdArray/NdArray/_impl/Operations.icpp b/NdArray/NdArray/_impl/Operations.icpp
index f5909d5..3fe0651 100644
--- a/NdArray/NdArray/_impl/Operations.icpp
+++ b/NdArray/NdArray/_impl/Operations.icpp
@@ -31,7 +31,6 @@ NdArray<T> sum(const NdArray<T>& array, int axis) {
   if (axis < 0) {
     axis = array.shape().size() + axis;
   }
-  assert(axis >= 0);
   if (static_cast<std::size_t>(axis) >= array.shape().size()) {
     throw std::out_of_range("Invalid axis");
   }
@@ -68,7 +67,6 @@ NdArray<T> trapz(const NdArray<T>& array, const Iterator kbegin, const Iterator
   if (axis < 0) {
     axis = array.shape().size() + axis;
   }
-  assert(axis >= 0);
   if (static_cast<std::size_t>(axis) >= array.shape().size()) {
     throw std::out_of_range("Invalid axis");
   }
-- 
2.43.0


From 14c6795e1f62adb9bdd9acf8239d8dda98ffa452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:01 +0000
Subject: [PATCH 77/89] fix: a parameter without value in a dataset file has no
 value

With a blank or a carriage return after the colon the blank itself was
taken as a value, which gave the parameter an empty part.
---
 XYDataset/src/lib/AsciiParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index ec79ec4..c3e9637 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -83,7 +83,7 @@ std::string AsciiParser::getParameter(const std::string& file, const std::string
   std::string  value{};
   std::string  line{};
   std::string  dataset_name{};
-  std::string  reg_ex_str = "^\\s*#\\s*" + key_word + "\\s*:\\s*(.+)\\s*$";
+  std::string  reg_ex_str = "^\\s*#\\s*" + key_word + "\\s*:\\s*(\\S.*)\\s*$";
   boost::regex expression(reg_ex_str);
 
   while (sfile.good()) {
-- 
2.43.0


From b7ad9fd5e11c1081bbf7cbcea52c521eb183fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:01 +0000
Subject: [PATCH 78/89] fix: the cumulative of InverseCumulative starts at zero

Starting it at the density of the first knot adds an offset, which is
removed again at every call, to the areas: where these are small compared
with the density it costs the precision of the quantiles.
---
 MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index 2b88522..6c27ae1 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -42,7 +42,7 @@ public:
       throw Elements::Exception() << "Knots must be sorted";
     }
 
-    m_cdf[0] = m_pdf[0];
+    m_cdf[0] = 0.;
     for (std::size_t i = 1; i < m_cdf.size(); ++i) {
       m_cdf[i] = (m_knots[i] - m_knots[i - 1]) * (m_pdf[i] + m_pdf[i - 1]) / 2.;
       m_cdf[i] += m_cdf[i - 1];
-- 
2.43.0


From eb4b461824ad815b3dd6a37ffa7c66a3f2e07864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 79/89] fix: order.txt orders the entries of its directory,
 each once

A repeated name, a directory with a trailing slash or a path into a
directory made the provider refuse the whole tree as having two datasets
of one name, ./name listed a dataset twice, and . recursed until the path
got too long.
---
 XYDataset/src/lib/FileSystemProvider.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/XYDataset/src/lib/FileSystemProvider.cpp b/XYDataset/src/lib/FileSystemProvider.cpp
index 2cb0dc5..bf85050 100644
--- a/XYDataset/src/lib/FileSystemProvider.cpp
+++ b/XYDataset/src/lib/FileSystemProvider.cpp
@@ -65,11 +65,14 @@ static std::vector<fs::path> getOrder(const fs::path& dir) {
         line = line.substr(0, comment_pos);
       }
       boost::trim(line);
+      boost::trim_right_if(line, boost::is_any_of("/"));  // as in a name of a directory
       if (!line.empty()) {
         auto name = dir / line;
-        if (fs::exists(name)) {
-          result.emplace_back(name);
-          ordered_names.emplace(line);
+        // Only the entries of the directory itself can be ordered, and each has one place
+        if (line != "." && line != ".." && line.find('/') == std::string::npos && fs::exists(name)) {
+          if (ordered_names.emplace(line).second) {
+            result.emplace_back(name);
+          }
         } else {
           logger.warn() << "Unknown name " << line << " in order.txt of " << dir << " directory";
         }
-- 
2.43.0


From 9381cf6cadd4c481c5bd404044d1adcf207d2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:30 +0000
Subject: [PATCH 80/89] fix: ThreadPool stops the threads it has started when
 another one cannot be

---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index c6aaf2b..0750984 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -97,12 +97,21 @@ ThreadPool::ThreadPool(unsigned int thread_count, unsigned int empty_queue_wait_
     , m_worker_sleeping_flags(thread_count)
     , m_worker_done_flags(thread_count)
     , m_empty_queue_wait_time(empty_queue_wait_time) {
-  for (unsigned int i = 0; i < thread_count; ++i) {
-    m_worker_run_flags.at(i)      = true;
-    m_worker_sleeping_flags.at(i) = false;
-    m_worker_done_flags.at(i)     = false;
-    m_workers.emplace_back(Worker{m_queue_mutex, m_queue, m_worker_run_flags.at(i), m_worker_sleeping_flags.at(i),
-                                  m_worker_done_flags.at(i), m_empty_queue_wait_time, m_exception_ptr});
+  try {
+    for (unsigned int i = 0; i < thread_count; ++i) {
+      m_worker_run_flags.at(i)      = true;
+      m_worker_sleeping_flags.at(i) = false;
+      m_worker_done_flags.at(i)     = false;
+      m_workers.emplace_back(Worker{m_queue_mutex, m_queue, m_worker_run_flags.at(i), m_worker_sleeping_flags.at(i),
+                                    m_worker_done_flags.at(i), m_empty_queue_wait_time, m_exception_ptr});
+    }
+  } catch (...) {
+    // The destructor is not going to be called: stop the workers that have already been started
+    std::fill(m_worker_run_flags.begin(), m_worker_run_flags.end(), false);
+    for (auto& worker : m_workers) {
+      worker.join();
+    }
+    throw;
   }
 }
 
-- 
2.43.0


From 07ad2cd6198af0ba0c3166921d89c034eb8edb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:32 +0000
Subject: [PATCH 81/89] fix: ThreadPool takes tasks out of the queue without
 copying them

---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index 0750984..a1f745c 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -48,22 +48,25 @@ public:
   void operator()() {
     while (m_run_flag.get()) {
       // Check if there is anything it the queue to be done and get it
-      std::unique_ptr<ThreadPool::Task> task_ptr = nullptr;
-      std::unique_lock<std::mutex>      lock{m_queue_mutex.get()};
+      ThreadPool::Task             task;
+      bool                         has_task = false;
+      std::unique_lock<std::mutex> lock{m_queue_mutex.get()};
       // Do not start anything else if a task has failed
       if (m_exception_ptr.get() != nullptr) {
         break;
       }
       if (!m_queue.get().empty()) {
-        task_ptr = Euclid::make_unique<ThreadPool::Task>(m_queue.get().front());
+        // Moved, as a copy may throw, and nobody would catch it here
+        task = std::move(m_queue.get().front());
         m_queue.get().pop_front();
+        has_task = true;
       }
       lock.unlock();
 
       // If we have some work to do, do it. Otherwise sleep for some time.
-      if (task_ptr) {
+      if (has_task) {
         try {
-          (*task_ptr)();
+          task();
         } catch (...) {
           lock.lock();
           m_exception_ptr.get() = std::current_exception();
-- 
2.43.0


From cc3a55f7f8fb8eb3a5200073715c50b18197dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:53 +0000
Subject: [PATCH 82/89] fix: AsciiWriter::addComment ends when a line cannot be
 read

---
 Table/src/lib/AsciiWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/AsciiWriter.cpp b/Table/src/lib/AsciiWriter.cpp
index 50cd6a4..d979778 100644
--- a/Table/src/lib/AsciiWriter.cpp
+++ b/Table/src/lib/AsciiWriter.cpp
@@ -68,6 +68,8 @@ void AsciiWriter::addComment(const std::string& message) {
   m_writing_started = true;
 
   std::stringstream message_stream{message};
+  // A line that cannot be read would never be the last one
+  message_stream.exceptions(std::ios_base::badbit);
   while (!message_stream.eof()) {
     std::string line;
     std::getline(message_stream, line);
-- 
2.43.0


From e8eab4359e2e3a1bc39deaeca9cf6fe35d38a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 83/89] fix: AsciiReader reports streams that break instead of
 ending there

---
 Table/src/lib/AsciiReader.cpp     | 18 ++++++++++++++++--
 Table/src/lib/AsciiReaderHelper.h |  4 +++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index 1b3ab37..30d4708 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -48,6 +48,13 @@ using boost::regex_match;
 namespace Euclid {
 namespace Table {
 
+// What has been read before a stream broke may be incomplete
+static void checkStream(const std::istream& in) {
+  if (in.bad()) {
+    throw Elements::Exception() << "Error while reading from the stream";
+  }
+}
+
 AsciiReader::AsciiReader(std::istream& stream) : AsciiReader(InstOrRefHolder<std::istream>::create(stream)) {}
 
 AsciiReader::AsciiReader(const std::string& filename) : AsciiReader(create<std::ifstream>(filename)) {}
@@ -140,6 +147,7 @@ void AsciiReader::readColumnInfo() {
     auto_names = m_column_names;
   }
   auto auto_desc  = autoDetectColumnDescriptions(in, m_comment);
+  checkStream(in);
 
   std::vector<std::string>     names{};
   std::vector<std::type_index> types{};
@@ -214,6 +222,7 @@ Table AsciiReader::readImpl(long rows) {
   while (in && rows != 0) {
     std::string line;
     getline(in, line);
+    checkStream(in);
     size_t comment_pos = line.find(m_comment);
     if (comment_pos != std::string::npos) {
       line = line.substr(0, comment_pos);
@@ -251,6 +260,7 @@ void AsciiReader::skip(long rows) {
   while (in && rows != 0) {
     std::string line;
     getline(in, line);
+    checkStream(in);
     size_t comment_pos = line.find(m_comment);
     if (comment_pos != std::string::npos) {
       line = line.substr(0, comment_pos);
@@ -263,11 +273,15 @@ void AsciiReader::skip(long rows) {
 }
 
 bool AsciiReader::hasMoreRows() {
-  return hasNextRow(m_stream_holder->ref(), m_comment);
+  auto result = hasNextRow(m_stream_holder->ref(), m_comment);
+  checkStream(m_stream_holder->ref());
+  return result;
 }
 
 std::size_t AsciiReader::rowsLeft() {
-  return countRemainingRows(m_stream_holder->ref(), m_comment);
+  auto result = countRemainingRows(m_stream_holder->ref(), m_comment);
+  checkStream(m_stream_holder->ref());
+  return result;
 }
 
 }  // namespace Table
diff --git a/Table/src/lib/AsciiReaderHelper.h b/Table/src/lib/AsciiReaderHelper.h
index 32d5bdf..9c16eb1 100644
--- a/Table/src/lib/AsciiReaderHelper.h
+++ b/Table/src/lib/AsciiReaderHelper.h
@@ -48,9 +48,11 @@ class StreamRewinder {
 public:
   explicit StreamRewinder(std::istream& stream) : m_stream(stream), m_state(stream.rdstate()), m_position(stream.tellg()) {}
   ~StreamRewinder() {
+    // A stream that is broken remains so, unless that has already been reported with an exception
+    auto state = m_state | (m_stream.rdstate() & ~m_stream.exceptions() & std::ios::badbit);
     m_stream.clear();
     m_stream.seekg(m_position);
-    m_stream.setstate(m_state);
+    m_stream.setstate(state);
   }
 
 private:
-- 
2.43.0


From 77640f85758bf3187a50132a8219954d7f22af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 84/89] fix: filter mapping files that cannot be read to their
 end are refused

---
 Configuration/src/lib/PhotometricBandMappingConfig.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Configuration/src/lib/PhotometricBandMappingConfig.cpp b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
index 3819389..c9c05d3 100644
--- a/Configuration/src/lib/PhotometricBandMappingConfig.cpp
+++ b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
@@ -108,6 +108,9 @@ parseFile(fs::path filename) {
     }
 
   }
+  if (in.bad()) {
+    throw Elements::Exception() << "Error while reading " << filename;
+  }
   return std::make_tuple(filter_name_mapping, threshold_mapping, convert_from_mag_mapping);
 }
 
-- 
2.43.0


From 49fab05b477db60ced420e5370266075f3036fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 85/89] fix: order.txt files that cannot be read to their end
 are refused

---
 XYDataset/src/lib/FileSystemProvider.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/XYDataset/src/lib/FileSystemProvider.cpp b/XYDataset/src/lib/FileSystemProvider.cpp
index bf85050..3da21a3 100644
--- a/XYDataset/src/lib/FileSystemProvider.cpp
+++ b/XYDataset/src/lib/FileSystemProvider.cpp
@@ -78,6 +78,9 @@ static std::vector<fs::path> getOrder(const fs::path& dir) {
         }
       }
     }
+    if (in.bad() && !fs::is_directory(order_file)) {
+      throw Elements::Exception() << "Error while reading " << order_file;
+    }
   }
 
   // Now we add any other files in the directory, which were not in the order.txt
-- 
2.43.0


From 70d6dcf01bc515cb2405feba6d52830b4e5efcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 86/89] fix: AsciiParser refuses files that cannot be read to
 their end

---
 XYDataset/src/lib/AsciiParser.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index c3e9637..ef5bdb0 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -24,6 +24,7 @@
  */
 
 #include <boost/algorithm/string.hpp>
+#include <boost/filesystem/operations.hpp>
 #include <boost/regex.hpp>
 #include <fstream>
 #include <iostream>
@@ -42,6 +43,17 @@ using boost::regex_match;
 namespace Euclid {
 namespace XYDataset {
 
+namespace {
+
+// What has been read before an error of the stream may be incomplete
+void checkStream(const std::istream& in, const std::string& file) {
+  if (in.bad()) {
+    throw Elements::Exception() << "Error while reading " << file;
+  }
+}
+
+}  // end of anonymous namespace
+
 //
 // Get dataset name from ASCII file
 //
@@ -58,6 +70,7 @@ std::string AsciiParser::getName(const std::string& file) {
     while (line.empty() && sfile.good()) {
       std::getline(sfile, line);
     }
+    checkStream(sfile, file);
 
     boost::regex  expression(m_regex_name);
     boost::smatch s_match;
@@ -99,6 +112,7 @@ std::string AsciiParser::getParameter(const std::string& file, const std::string
 
     }
   }
+  checkStream(sfile, file);
   return value;
 }
 
@@ -136,6 +150,9 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
       line = line.substr(0, line.find('#'));
       boost::trim(line);
     }
+    if (!boost::filesystem::is_directory(file)) {
+      checkStream(sfile, file);
+    }
     if (!line.empty()) {
       // We should have 2 double values only on one line
       try {
-- 
2.43.0


From 23eb747e122b09c7ed583e30fd2f8c75d7cd15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 87/89] fix: writeNpy reports files that cannot be written

---
 NdArray/NdArray/io/Npy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NdArray/NdArray/io/Npy.h b/NdArray/NdArray/io/Npy.h
index d21fcf6..c8b2028 100644
--- a/NdArray/NdArray/io/Npy.h
+++ b/NdArray/NdArray/io/Npy.h
@@ -19,6 +19,7 @@
 #ifndef ALEXANDRIA_NDARRAY_NPY_H
 #define ALEXANDRIA_NDARRAY_NPY_H
 
+#include "ElementsKernel/Exception.h"
 #include "NdArray/NdArray.h"
 #include <boost/filesystem/path.hpp>
 #include <fstream>
@@ -74,6 +75,10 @@ template <typename T>
 void writeNpy(const boost::filesystem::path& path, const NdArray<T>& array) {
   std::ofstream output(path.native(), std::ios_base::out | std::ios_base::binary);
   writeNpy(output, array);
+  output.close();
+  if (!output) {
+    throw Elements::Exception() << "Error while writing " << path.native();
+  }
 }
 
 /**
-- 
2.43.0


From 4bcbb7c47631cc6c955becf2e0342853a967fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:29 +0000
Subject: [PATCH 88/89] fix: AsciiWriter reports what it cannot write

---
 Table/src/lib/AsciiWriter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Table/src/lib/AsciiWriter.cpp b/Table/src/lib/AsciiWriter.cpp
index d979778..467cf6b 100644
--- a/Table/src/lib/AsciiWriter.cpp
+++ b/Table/src/lib/AsciiWriter.cpp
@@ -32,6 +32,13 @@
 namespace Euclid {
 namespace Table {
 
+// Everything has to be out: the destructor has no way to say that it is not
+static void checkWritten(std::ostream& out) {
+  if (!out.flush()) {
+    throw Elements::Exception() << "Error while writing to the stream";
+  }
+}
+
 AsciiWriter::AsciiWriter(std::ostream& stream) : AsciiWriter(InstOrRefHolder<std::ostream>::create(stream)) {}
 
 AsciiWriter::AsciiWriter(const std::string& filename) : AsciiWriter(create<std::ofstream>(filename)) {}
@@ -75,6 +82,7 @@ void AsciiWriter::addComment(const std::string& message) {
     std::getline(message_stream, line);
     m_stream_holder->ref() << m_comment << ' ' << line << '\n';
   }
+  checkWritten(m_stream_holder->ref());
 }
 
 void AsciiWriter::init(const Table& table) {
@@ -126,6 +134,7 @@ void AsciiWriter::append(const Table& table) {
     }
     out << "\n";
   }
+  checkWritten(out);
 }
 
 }  // namespace Table
-- 
2.43.0


From b6ff0b7a6b07fba1489085d1e96b83583f2d8044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:18 +0000
Subject: [PATCH 89/89] fix: axes of bool return their knots, not references to
 temporaries

---
 GridContainer/GridContainer/GridAxis.h              | 2 +-
 GridContainer/GridContainer/GridContainer.h         | 2 +-
 GridContainer/GridContainer/_impl/GridAxis.icpp     | 2 +-
 GridContainer/GridContainer/_impl/GridIterator.icpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/GridContainer/GridContainer/GridAxis.h b/GridContainer/GridContainer/GridAxis.h
index ea99287..01833e7 100644
--- a/GridContainer/GridContainer/GridAxis.h
+++ b/GridContainer/GridContainer/GridAxis.h
@@ -68,7 +68,7 @@ public:
   const std::string& name() const;
 
   /// Returns the value of the knot with the given index
-  const T& operator[](size_t index) const;
+  typename std::vector<T>::const_reference operator[](size_t index) const;
 
   /// Returns an iterator at the first knot of the axis
   const_iterator begin() const;
diff --git a/GridContainer/GridContainer/GridContainer.h b/GridContainer/GridContainer/GridContainer.h
index c6d4901..d200267 100644
--- a/GridContainer/GridContainer/GridContainer.h
+++ b/GridContainer/GridContainer/GridContainer.h
@@ -444,7 +444,7 @@ public:
   /// Returns the value of the axis with index I, for the cell the iterator
   /// points
   template <int I>
-  const axis_type<I>& axisValue() const;
+  typename std::vector<axis_type<I>>::const_reference axisValue() const;
 
   /**
    * Modifies the iterator to navigate only through cells with the given axis
diff --git a/GridContainer/GridContainer/_impl/GridAxis.icpp b/GridContainer/GridContainer/_impl/GridAxis.icpp
index f4f73e7..1a548a7 100644
--- a/GridContainer/GridContainer/_impl/GridAxis.icpp
+++ b/GridContainer/GridContainer/_impl/GridAxis.icpp
@@ -41,7 +41,7 @@ const std::string& GridAxis<T>::name() const {
 }
 
 template <typename T>
-const T& GridAxis<T>::operator[](size_t index) const {
+typename std::vector<T>::const_reference GridAxis<T>::operator[](size_t index) const {
   return m_values[index];
 }
 
diff --git a/GridContainer/GridContainer/_impl/GridIterator.icpp b/GridContainer/GridContainer/_impl/GridIterator.icpp
index c97bcdd..a227f94 100644
--- a/GridContainer/GridContainer/_impl/GridIterator.icpp
+++ b/GridContainer/GridContainer/_impl/GridIterator.icpp
@@ -120,7 +120,7 @@ size_t GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::axisIndex()
 template <typename GridCellManager, typename... AxesTypes>
 template <typename CellType>
 template <int I>
-auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::axisValue() const -> const axis_type<I>& {
+auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::axisValue() const -> typename std::vector<axis_type<I>>::const_reference {
   size_t index = axisIndex<I>();
   return std::get<I>(m_owner.m_axes)[index];
 }
-- 
2.43.0

