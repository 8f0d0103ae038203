From f3e20543534dff7b8fe6498bcab734a35806fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 01/48] fix: multi_threads_loop skipped items when they do not
 divide evenly among the threads

---
 src/multi-thread/multi-thread.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 923af2c..2e043ec 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -58,13 +58,14 @@ namespace hub::multi_thread {
     template <typename Lambda>
     void multi_threads_loop(size_t total_len, size_t thread_num, Lambda &&task) {
         auto len_pth = total_len / thread_num;
+        auto remainder = total_len % thread_num;
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
+        size_t begin = 0;
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
-            size_t begin = th_id * len_pth;
-            size_t end = begin + len_pth;
-            if (end + len_pth > total_len) end = total_len;
+            size_t end = begin + len_pth + (th_id < remainder ? 1 : 0);
             threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            begin = end;
         }
 
         for (auto &thread : threads) {
-- 
2.43.0


From 3684264edffcb0e2384a81d915a100316162c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 02/48] fix: fork-join helpers moved the job and its arguments
 into the first thread only

---
 src/multi-thread/multi-thread.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 2e043ec..b5a2921 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -64,7 +64,7 @@ namespace hub::multi_thread {
         size_t begin = 0;
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
             size_t end = begin + len_pth + (th_id < remainder ? 1 : 0);
-            threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            threads.emplace_back(std::thread(task, begin, end));
             begin = end;
         }
 
@@ -78,7 +78,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, args...));
         }
 
         for (auto &th : threads) {
@@ -91,7 +91,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), i, std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, i, args...));
         }
 
         for (auto &th : threads) {
-- 
2.43.0


From 824d23130e10a36af5ab5495b9f2de57b32f3f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 03/48] fix: fork-join helpers terminated the program when a
 thread could not be created

---
 src/multi-thread/multi-thread.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index b5a2921..28cf01a 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -55,11 +55,24 @@ namespace hub::multi_thread {
     inline const size_t machine_thread_num =
         (std::thread::hardware_concurrency() > 1) ? std::thread::hardware_concurrency() : 1;
 
+    namespace detail {
+        // Joins the threads of a fork-join helper, also when one of them could not be created.
+        struct JoinGuard {
+            std::vector<std::thread> &threads;
+            ~JoinGuard() {
+                for (auto &thread : threads) {
+                    if (thread.joinable()) thread.join();
+                }
+            }
+        };
+    }  // namespace detail
+
     template <typename Lambda>
     void multi_threads_loop(size_t total_len, size_t thread_num, Lambda &&task) {
         auto len_pth = total_len / thread_num;
         auto remainder = total_len % thread_num;
         std::vector<std::thread> threads;
+        detail::JoinGuard guard{threads};
         threads.reserve(thread_num);
         size_t begin = 0;
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
@@ -67,36 +80,26 @@ namespace hub::multi_thread {
             threads.emplace_back(std::thread(task, begin, end));
             begin = end;
         }
-
-        for (auto &thread : threads) {
-            if (thread.joinable()) thread.join();
-        }
     }
 
     template <typename Callable, typename... Args>
     void multi_thread(size_t thread_num, Callable &&job, Args &&...args) {
         std::vector<std::thread> threads;
+        detail::JoinGuard guard{threads};
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
             threads.emplace_back(std::thread(job, args...));
         }
-
-        for (auto &th : threads) {
-            if (th.joinable()) th.join();
-        }
     }
 
     template <typename Callable, typename... Args>
     void indexed_multi_thread(size_t thread_num, Callable &&job, Args &&...args) {
         std::vector<std::thread> threads;
+        detail::JoinGuard guard{threads};
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
             threads.emplace_back(std::thread(job, i, args...));
         }
-
-        for (auto &th : threads) {
-            if (th.joinable()) th.join();
-        }
     }
 
     template <typename... Args>
-- 
2.43.0


From 2ebe8da838b2e2c3cf34af997bc408aba04ef4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 04/48] fix: ThreadPool destructor could miss a worker about to
 sleep and wait for it forever

---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 39f2d64..de94f40 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -69,7 +69,10 @@ namespace hub::multi_thread {
     }
 
     ThreadPool::~ThreadPool() {
-        stop_ = true;
+        {
+            std::lock_guard<std::mutex> lock(lock_);
+            stop_ = true;
+        }
         cv_.notify_all();
         for (auto &worker : workers_) {
             if (worker.joinable()) worker.join();
-- 
2.43.0


From 1e0b5ccd31014fb463e3153065b2ef52f98ab0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 05/48] fix: ConcurrentDeque::try_pop_front/back did not
 compile (wait needs a unique_lock)

---
 src/multi-thread/concurrent-queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 313a888..531d0bd 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -41,7 +41,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_front(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
@@ -53,7 +53,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_back(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
-- 
2.43.0


From 44c0a768a1d1ceb8f21356ed448770c3dc2a482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 06/48] fix: ConcurrentDeque::stop could miss a consumer about
 to wait and leave it waiting forever

---
 src/multi-thread/concurrent-queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 531d0bd..0268a3f 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -27,7 +27,10 @@ namespace hub::multi_thread {
         }
 
         void stop() {
-            stop_ = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                stop_ = true;
+            }
             cv_.notify_all();
         }
 
-- 
2.43.0


From d2a3993119a7a03c638c744fc8dd157ddf1a5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 07/48] fix: destroying a ConcurrentDeque freed it under the
 consumers it had just woken

---
 src/multi-thread/concurrent-queue.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 0268a3f..fc7f682 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -10,7 +10,14 @@ namespace hub::multi_thread {
     template <typename T>
     class ConcurrentDeque {
        public:
-        ~ConcurrentDeque() { stop(); }
+        ~ConcurrentDeque() {
+            stop();
+            // the woken consumers still use the members: let them leave first.
+            std::unique_lock<std::mutex> lock(mutex_);
+            while (waiting_ != 0) {
+                cv_.wait(lock);
+            }
+        }
 
         template <typename... Args>
         void emplace_back(Args &&...args) {
@@ -46,7 +53,7 @@ namespace hub::multi_thread {
         bool try_pop_front(T &data) noexcept {
             std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
-                cv_.wait(lock);
+                wait(lock);
             }
             if (stop_) return false;
 
@@ -58,7 +65,7 @@ namespace hub::multi_thread {
         bool try_pop_back(T &data) noexcept {
             std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
-                cv_.wait(lock);
+                wait(lock);
             }
             if (stop_) return false;
 
@@ -68,9 +75,17 @@ namespace hub::multi_thread {
         }
 
        private:
+        void wait(std::unique_lock<std::mutex> &lock) {
+            ++waiting_;
+            cv_.wait(lock);
+            --waiting_;
+            if (stop_ && waiting_ == 0) cv_.notify_all();
+        }
+
         std::deque<T> deque_;
         std::mutex mutex_;
         std::condition_variable cv_;
         std::atomic_bool stop_{false};
+        size_t waiting_{0};
     };
 }  // namespace hub::multi_thread
-- 
2.43.0


From ff8cd4b70984dce1d9b2e9e7be066a916a822682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 08/48] fix: Costream and Cistream could not be used (inserting
 did not compile, extracting did not report the end)

---
 src/multi-thread/ciostream.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 1a2bf1b..5007761 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -52,6 +52,8 @@ namespace hub::multi_thread {
             out.cv_.notify_one();
         }
 
+        friend void operator<<(Opip &out, T const &tup) { out << T(tup); }
+
        private:
         std::queue<T> queue_;
         std::mutex mutex_;
@@ -101,7 +103,7 @@ namespace hub::multi_thread {
             if (thread_.joinable()) thread_.join();
         }
 
-        friend bool operator>>(Ipip &in, T &&tup) {
+        friend bool operator>>(Ipip &in, T &tup) {
             std::unique_lock<std::mutex> lock(in.mutex_);
             in.cv_io_.wait(lock, [&] { return in.eoq_ || !in.queue_.empty(); });
 
@@ -115,6 +117,8 @@ namespace hub::multi_thread {
             return true;
         }
 
+        friend bool operator>>(Ipip &in, T &&tup) { return in >> tup; }
+
        private:
         std::queue<T> queue_;
         std::mutex mutex_;
@@ -157,7 +161,9 @@ namespace hub::multi_thread {
 
         explicit Cistream(std::string &file_name) : Cistream(file_name.c_str()) {}
 
-        friend void operator>>(Cistream &in, T &&tup) { *(in.pip_ptr_) >> std::forward<T>(tup); }
+        friend bool operator>>(Cistream &in, T &tup) { return *(in.pip_ptr_) >> tup; }
+
+        friend bool operator>>(Cistream &in, T &&tup) { return *(in.pip_ptr_) >> tup; }
 
        private:
         std::shared_ptr<Ipip<T>> pip_ptr_;
-- 
2.43.0


From c5af8d150c03d35d5c1567c50bfd6927223c666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 09/48] fix: asynchronous streams started their thread before
 the flags it reads were initialised

---
 src/multi-thread/ciostream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 5007761..9687038 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -59,8 +59,8 @@ namespace hub::multi_thread {
         std::mutex mutex_;
         std::condition_variable cv_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
+        std::thread thread_;  // last: it uses all the others
     };
 
     template <typename T>
@@ -125,9 +125,9 @@ namespace hub::multi_thread {
         std::condition_variable cv_load_;
         std::condition_variable cv_io_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
         bool eoq_{false};
+        std::thread thread_;  // last: it uses all the others
     };
 
     template <typename T>
-- 
2.43.0


From c47b062b236421a8b8b765b4959633810326dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 10/48] fix: Ipip delivered records that are not in the file
 (one at its end, endless ones if it cannot be read)

---
 src/multi-thread/ciostream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 9687038..9eede42 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -68,16 +68,16 @@ namespace hub::multi_thread {
        public:
         explicit Ipip(const char *file_name)
             : file_(file_name, std::fstream::in), thread_(std::thread([&] {
-                  while (!file_.eof()) {
+                  while (file_) {
                       {
                           std::unique_lock<std::mutex> lock(mutex_);
                           cv_load_.wait(lock, [&] { return stop_ || queue_.empty(); });
 
                           if (stop_) break;
 
-                          for (size_t i = 0; i < 100 && !file_.eof(); ++i) {
+                          for (size_t i = 0; i < 100; ++i) {
                               T data;
-                              file_ >> data;
+                              if (!(file_ >> data)) break;
                               queue_.emplace(std::move(data));
                           }
                       }
-- 
2.43.0


From df56e6e11d9fe8c257f055147553fbe0d3ec061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 11/48] fix: starting a running Timer dropped the time it had
 already counted

---
 src/tools/timer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/timer.hpp b/src/tools/timer.hpp
index 537818d..0cbcb4b 100644
--- a/src/tools/timer.hpp
+++ b/src/tools/timer.hpp
@@ -67,6 +67,7 @@ namespace hub::tools {
           Class Timer Implementation
     \*---------------------------------------------------------------------------*/
     void Timer::start() {
+        if (active_) return;
         active_ = true;
         start_ = std::chrono::steady_clock::now();
     }
-- 
2.43.0


From cca2b288ee4e203c841373e1b7c4e43fe65102bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 12/48] fix: random::Parameter without bounds never returned
 for values that are not positive

---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 30edbe1..d7a0499 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -195,7 +195,7 @@ namespace hub::random {
         void set_boundary(double min, double max) { min_ = min, max_ = max; }
 
        private:
-        double min_{std::numeric_limits<double>::min()};
+        double min_{std::numeric_limits<double>::lowest()};
         double max_{std::numeric_limits<double>::max()};
         std::function<double()> dist_;
     };
-- 
2.43.0


From 5b67bfc9b83dc22ca09c4a1da653e7d962131e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 13/48] fix: ConfigReader silently accepted a configuration
 file it could not read completely

---
 src/tools/config-reader.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 95a2524..9cb727e 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -79,6 +79,9 @@ namespace hub::tools {
                 auto val = line.substr(split + 1);
                 map_[key] = val;
             }
+            if (file.bad()) {
+                spacehub_abort("Failed to read the configure file: ", file_name, "\r\n");
+            }
         } else {
             spacehub_abort("Cannot open the configure file: ", file_name, "\r\n");
         }
-- 
2.43.0


From 851682f666c8230c7d1bc81fc5287eba4016be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 14/48] fix: auto_name repeated names (several prefixes in a
 second, clock stepping back, several threads)

---
 src/tools/auto-name.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index 0bb81ca..817e68c 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -6,15 +6,18 @@
 
 #include <ctime>
 #include <iomanip>
+#include <mutex>
 #include <sstream>
 #include <string>
+#include <unordered_map>
 
 namespace hub::tools {
 
     std::string auto_name(std::string const &prefix = "space_") {
-        static int duplicate = 1;
-        static std::string last_name;
+        static std::mutex mutex;
+        static std::unordered_map<std::string, int> duplicates;  // names given out so far
 
+        std::lock_guard<std::mutex> lock(mutex);
         auto t = std::time(nullptr);
         auto tm = *std::localtime(&t);
         std::ostringstream oss;
@@ -22,11 +25,10 @@ namespace hub::tools {
 
         auto name = prefix + oss.str();
 
-        if (name == last_name) {
-            return name + '(' + std::to_string(duplicate++) + ").dat";
+        auto duplicate = duplicates[name]++;
+        if (duplicate > 0) {
+            return name + '(' + std::to_string(duplicate) + ").dat";
         } else {
-            duplicate = 1;
-            last_name = name;
             return name + ".dat";
         }
     }
-- 
2.43.0


From 4c9308c591055a30577313cf798d98fd26bd2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 15/48] fix: TimeSlice caught up on passed times step by step,
 LogTimeSlice could loop forever and kept its old start on reset

---
 src/args-callback/callbacks.hpp | 70 ++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..b6a9a9f 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -105,10 +105,15 @@ namespace hub::callback {
         Operation operation() { return opt_; };
 
        private:
+        /** Move the next invoking time to the first time of the slice after t. */
+        void advance_opt_time(Scalar t);
+
         Operation opt_;
         Scalar opt_time_{0};
+        Scalar start_time_{0};
         Scalar end_time_{0};
         Scalar opt_interval_{0};
+        size_t opt_num_{0};
     };
 
     /*---------------------------------------------------------------------------*\
@@ -229,11 +234,15 @@ namespace hub::callback {
         Operation operation() { return opt_; };
 
        private:
+        /** Move the next invoking time to the first time of the slice after t. */
+        void advance_opt_time(Scalar t);
+
         Operation opt_;
         Scalar opt_time_{0};
         Scalar start_time_{0};
         Scalar end_time_{0};
         Scalar opt_interval_{1};
+        size_t opt_num_{0};
     };
     /*---------------------------------------------------------------------------*\
      Class DefaultWriter Declaration
@@ -303,7 +312,12 @@ namespace hub::callback {
     \*---------------------------------------------------------------------------*/
     template <typename Operation, typename Scalar>
     TimeSlice<Operation, Scalar>::TimeSlice(const Operation& opt, Scalar start, Scalar end, size_t opt_num)
-        : opt_{opt}, opt_time_{start}, end_time_{end}, opt_interval_{(end - start) / opt_num} {
+        : opt_{opt},
+          opt_time_{start},
+          start_time_{start},
+          end_time_{end},
+          opt_interval_{(end - start) / opt_num},
+          opt_num_{opt_num} {
         assert(end >= start);
     }
 
@@ -314,7 +328,7 @@ namespace hub::callback {
             std::is_same_v<void, std::result_of_t<Operation(ParticleSys&, typename ParticleSys::Scalar)>>, void> {
         auto t = ptc.time();
         if (t >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
-            opt_time_ += opt_interval_;
+            advance_opt_time(t);
             opt_(ptc, step_size);
         }
     }
@@ -326,7 +340,7 @@ namespace hub::callback {
             std::is_same_v<bool, std::result_of_t<Operation(ParticleSys&, typename ParticleSys::Scalar)>>, bool> {
         auto t = ptc.time();
         if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
-            opt_time_ += opt_interval_;
+            advance_opt_time(t);
             return opt_(ptc, step_size);
         } else {
             return false;
@@ -336,8 +350,27 @@ namespace hub::callback {
     template <typename Operation, typename Scalar>
     void TimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_time_ = start;
+        start_time_ = start;
         end_time_ = end;
         opt_interval_ = (end - start) / opt_num;
+        opt_num_ = opt_num;
+    }
+
+    template <typename Operation, typename Scalar>
+    void TimeSlice<Operation, Scalar>::advance_opt_time(Scalar t) {
+        opt_time_ = math::max_value<double>::value;  // nothing left, unless found below
+        if (opt_interval_ > 0) {
+            using std::floor;
+            Scalar const passed = floor((t - start_time_) / opt_interval_);
+            for (int i = 0; i < 3; ++i) {  // 'passed' is off by one at most, due to rounding
+                Scalar const index = passed + i;
+                Scalar const next = index < opt_num_ ? start_time_ + index * opt_interval_ : end_time_;
+                if (index <= opt_num_ && next > t) {
+                    opt_time_ = next;
+                    break;
+                }
+            }
+        }
     }
 
     /*---------------------------------------------------------------------------*\
@@ -385,7 +418,8 @@ namespace hub::callback {
           opt_time_{start},
           start_time_{start},
           end_time_{end},
-          opt_interval_{POW(end - start, 1.0 / opt_num)} {
+          opt_interval_{POW(end - start, 1.0 / opt_num)},
+          opt_num_{opt_num} {
         assert(end >= start);
         opt_time_ = start + opt_interval_;
     }
@@ -397,9 +431,7 @@ namespace hub::callback {
             std::is_same_v<void, std::result_of_t<Operation(ParticleSys&, typename ParticleSys::Scalar)>>, void> {
         auto t = ptc.time();
         if (t >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
-            do {
-                opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            advance_opt_time(t);
             opt_(ptc, step_size);
         }
     }
@@ -411,9 +443,7 @@ namespace hub::callback {
             std::is_same_v<bool, std::result_of_t<Operation(ParticleSys&, typename ParticleSys::Scalar)>>, bool> {
         auto t = ptc.time();
         if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
-            do {
-                opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            advance_opt_time(t);
             return opt_(ptc, step_size);
         } else {
             return false;
@@ -424,7 +454,27 @@ namespace hub::callback {
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
         opt_time_ = start + opt_interval_;
+        start_time_ = start;
         end_time_ = end;
+        opt_num_ = opt_num;
+    }
+
+    template <typename Operation, typename Scalar>
+    void LogTimeSlice<Operation, Scalar>::advance_opt_time(Scalar t) {
+        opt_time_ = math::max_value<double>::value;  // nothing left, unless found below
+        if (opt_interval_ > 1) {
+            using std::floor;
+            using std::log;
+            Scalar const passed = floor(log(t - start_time_) / log(opt_interval_));
+            for (int i = 0; i < 3; ++i) {  // 'passed' is off by one at most, due to rounding
+                Scalar const index = passed + i;
+                Scalar const next = index < opt_num_ ? start_time_ + POW(opt_interval_, index) : end_time_;
+                if (index <= opt_num_ && next > t) {
+                    opt_time_ = next;
+                    break;
+                }
+            }
+        }
     }
 
     /*---------------------------------------------------------------------------*\
-- 
2.43.0


From 4dd77cca6156a323823135282e9b0c8ecee47561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 16/48] fix: stop conditions were copied for every check and
 lost their own state (e.g. StepSlice)

---
 src/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index 9f4bf5c..a0ee5ce 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -317,7 +317,7 @@ namespace hub {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     bool RunArgs<ParticleSys>::check_stops(ParticleSys &particle_system, Scalar step_size) const {
         return std::any_of(stop_cond_.begin(), stop_cond_.end(),
-                           [&](auto cond) { return cond(particle_system, step_size); });
+                           [&](auto const &cond) { return cond(particle_system, step_size); });
     }
 
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
-- 
2.43.0


From 8ebbb934ca5cc8b7c96895bf7f4d1b3351b3a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 17/48] fix: a run whose stop time is not ahead of its start
 ran away, or backwards after overshooting; stop time zero divided by zero

---
 src/simulator.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index a0ee5ce..fc1ba4e 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -406,12 +406,22 @@ namespace hub {
 
         run_args.start_operations(particles_, step_size_);
 
+        // The stop time cannot be reached by steps in the opposite direction (or there is no way to go).
+        bool const reachable = (end_time - particles_.time()) * step_size_ > 0;
+
+        // The tolerance is relative to the stop time, or to the duration if that is zero.
+        Scalar const time_tol = time_rtol_ * std::abs(end_time != 0 ? end_time : Scalar(end_time - particles_.time()));
+
         // Dipto's changes here
 
-        for (; std::abs((particles_.time() - end_time) / end_time) > time_rtol_ &&
+        for (; reachable && std::abs(particles_.time() - end_time) > time_tol &&
                !run_args.check_stops(particles_, step_size_);) {
             Scalar rest_step = (end_time - particles_.time()) * particles_.step_scale();
 
+            if (rest_step * step_size_ < 0) {  // the last step went past the stop time or fell back behind it
+                step_size_ = -step_size_;
+            }
+
             if (std::abs(step_size_) <= std::abs(rest_step)) [[likely]] {
                 run_args.operations(particles_, step_size_);
                 advance_one_step();
-- 
2.43.0


From 3fdc18b776366ec9bcb7c79fdca5e74b3031e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 18/48] fix: a first extrapolation step that is too large was
 retried unchanged until the program gave up

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..d2a1300 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -510,7 +510,7 @@ namespace hub::ode {
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
         } else {
-            return false;
+            return k == ideal_rank_ + 1;  // every column of the first step is used up
         }
     }
 
-- 
2.43.0


From ffed904fc67672d70b42bf46f634af61c62e6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 19/48] fix: a first extrapolation step converging in the last
 column made the next one use a column that does not exist

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index d2a1300..28ee990 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -491,7 +491,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = std::min(k, max_depth - 1);  // the extrapolation table has no further column
             }
             return ideal_step_size_[k];
         }
-- 
2.43.0


From 5034c9045cdc09fe1855deed83dbe56d47b7de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 20/48] fix: the reference energy of EnergyErrWriter was shared
 by all writers and simulations of a process

---
 src/args-callback/callbacks.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index b6a9a9f..01f95fe 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -30,6 +30,7 @@ License
 #include <fstream>
 #include <iomanip>
 #include <memory>
+#include <optional>
 
 #include "../core-computation.hpp"
 #include "../dev-tools.hpp"
@@ -305,6 +306,7 @@ namespace hub::callback {
 
        private:
         std::shared_ptr<std::ofstream> fstream_;
+        std::optional<long double> E0_;
     };
 
     /*---------------------------------------------------------------------------*\
@@ -521,8 +523,11 @@ namespace hub::callback {
 
     template <typename ParticleSys>
     void EnergyErrWriter::operator()(ParticleSys& ptc, typename ParticleSys::Scalar step_size) {
-        static typename ParticleSys::Scalar E0 = calc::calc_total_energy(ptc);
-        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, E0) << '\n';
+        using Scalar = typename ParticleSys::Scalar;
+        if (!E0_) {
+            E0_ = static_cast<long double>(calc::calc_total_energy(ptc));
+        }
+        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, static_cast<Scalar>(*E0_)) << '\n';
     }
 
     template <typename T>
-- 
2.43.0


From a4fd056e8747cceb080c2b0471e7121181e82822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 21/48] fix: the general extrapolation step advanced the time
 with every substep of every attempt

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 28ee990..b20016c 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -408,7 +408,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From 159ab3f535a7f14a25b7c017c98f595077437f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 22/48] fix: the general extrapolation mixed odd and even
 midpoint rules, so converged columns were wrong

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index b20016c..1432b36 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -409,6 +409,7 @@ namespace hub::ode {
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
         EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
+        steps *= 2;  // the smoothed midpoint rule has one error expansion in h^2 for all even step numbers
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From 26825bc5853ee7e143d951f80a7d050736b8845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 23/48] fix: IAS15 ended the program when the corrector
 converged slowly instead of retrying with a smaller step

---
 src/ode-iterator/IAS15.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ode-iterator/IAS15.hpp b/src/ode-iterator/IAS15.hpp
index 6d4a67c..3aae843 100644
--- a/src/ode-iterator/IAS15.hpp
+++ b/src/ode-iterator/IAS15.hpp
@@ -87,7 +87,7 @@ namespace hub::ode {
     template <typename U>
     auto IAS15<Integrator, ErrEstimator, StepController>::iterate(U& particles, Scalar macro_step_size) -> Scalar {
         Scalar iter_h = macro_step_size;
-        for (size_t k = 0; k < max_iter_; ++k) {
+        for (size_t k = 0, slow_tries = 0; k < max_iter_; ++k) {
             integrator_.correct(particles, iter_h);
             if (in_converged_window()) {
                 Scalar step_error = calc_step_error(integrator_.dy_h(), integrator_.b()[6], particles, iter_h);
@@ -109,6 +109,11 @@ namespace hub::ode {
 
                     continue;
                 }
+            } else if (k + 1 == max_iter_ && slow_tries++ < max_iter_) {
+                // the corrector converges too slowly: the step is too large
+                iter_h *= step_ctrl_.limiter_min();
+                k = 0;
+                reset_PC_iteration();
             }
         }
         spacehub_abort("Exceed the max iteration number");
-- 
2.43.0


From 40e77244f506a141ed79251ef18fcbda014aac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 24/48] fix: step_scale of regularised systems was left over
 from the last substep, not of the current state

---
 src/particle-system/regu-system.hpp | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..7b244bf 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -75,8 +75,6 @@ namespace hub::system {
         StateScalar omega_{1};
 
         StateScalar bindE_{1};
-
-        Scalar scale_{1};
     };
 
     /*---------------------------------------------------------------------------*\
@@ -501,20 +499,14 @@ namespace hub::system {
     Regularization<TypeSystem, Type>::Regularization(Particles const &particles) {
         omega_ = capital_omega(particles);
         bindE_ = -calc::calc_total_energy(particles);
-        if constexpr (Type != ReguType::None) {
-            scale_ = omega_;
-        }
     }
 
     template <typename TypeSystem, ReguType Type>
     template <CONCEPT_PARTICLES_DATA Particles>
     auto Regularization<TypeSystem, Type>::eval_pos_phy_time(Particles const &particles, Scalar step_size) -> Scalar {
-        if constexpr (Type == ReguType::LogH) {
-            scale_ = (bindE_ + calc::calc_kinetic_energy(particles));
-            return step_size / scale_;
-        } else if constexpr (Type == ReguType::TTL) {
-            scale_ = omega_;
-            return step_size / scale_;
+        if constexpr (Type == ReguType::LogH || Type == ReguType::TTL) {
+            Scalar scale = regu_function(particles);
+            return step_size / scale;
         } else if constexpr (Type == ReguType::None) {
             return step_size;
         } else {
@@ -526,11 +518,11 @@ namespace hub::system {
     template <CONCEPT_PARTICLES_DATA Particles>
     auto Regularization<TypeSystem, Type>::eval_vel_phy_time(Particles const &particles, Scalar step_size) -> Scalar {
         if constexpr (Type == ReguType::LogH) {
-            scale_ = -calc::calc_potential_energy(particles);
-            return step_size / scale_;
+            Scalar scale = -calc::calc_potential_energy(particles);
+            return step_size / scale;
         } else if constexpr (Type == ReguType::TTL) {
-            scale_ = capital_omega(particles);
-            return step_size / scale_;
+            Scalar scale = capital_omega(particles);
+            return step_size / scale;
         } else if constexpr (Type == ReguType::None) {
             return step_size;
         } else {
@@ -547,7 +539,13 @@ namespace hub::system {
     template <typename TypeSystem, ReguType Type>
     template <typename Particles>
     auto Regularization<TypeSystem, Type>::regu_function(Particles const &particles) const -> StateScalar {
-        return scale_;
+        if constexpr (Type == ReguType::LogH) {
+            return bindE_ + calc::calc_kinetic_energy(particles);
+        } else if constexpr (Type == ReguType::TTL) {
+            return omega_;
+        } else {
+            return 1;
+        }
     }
 
 }  // namespace hub::system
-- 
2.43.0


From 49a053b3ea1a4ff4a77cbd70fb48ca7521b4a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 25/48] fix: substep-parallel extrapolation kept references to
 the first step of the first simulation and could not be copied

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 1432b36..821c0c2 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -178,7 +178,16 @@ namespace hub::ode {
         bool first_step_{true};
 
 #ifdef BS_SUBSTEP_PARALLEL
-        tf::Executor executor{1};
+        /** @brief The worker of the substeps. Every integrator, copies included, has one of its own.*/
+        struct SubstepExecutor {
+            SubstepExecutor() = default;
+
+            SubstepExecutor(SubstepExecutor const &) {}
+
+            SubstepExecutor &operator=(SubstepExecutor const &) { return *this; }
+
+            tf::Executor executor{1};
+        } substep_;
 #endif
     };
 
@@ -292,7 +301,7 @@ namespace hub::ode {
         particles.collect_increment(true);
 
 #ifdef BS_SUBSTEP_PARALLEL
-        static const auto integrate_with_stride = [&](auto &ptc, size_t start, size_t stride) {
+        auto integrate_with_stride = [this, &iter_h](U &ptc, int start, int stride) {
             auto const &dy = ptc.increment();
 
             for (int p = start; p >= 0; p -= stride) {
@@ -308,9 +317,9 @@ namespace hub::ode {
             iter_num_++;
 
 #ifdef BS_SUBSTEP_PARALLEL
-            executor.silent_async(integrate_with_stride, particles, ideal_rank_, 2);
-            integrate_with_stride(particles, ideal_rank_ + 1, 2);
-            executor.wait_for_all();
+            substep_.executor.silent_async(integrate_with_stride, particles, static_cast<int>(ideal_rank_), 2);
+            integrate_with_stride(particles, static_cast<int>(ideal_rank_) + 1, 2);
+            substep_.executor.wait_for_all();
 #else
             particles.clear_increment();
             integrate_by_n_steps(particles, iter_h, consts_.h(0));
-- 
2.43.0


From 1d56cd3e786375a82ab17a0222287b0e32a2d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 26/48] fix: TimeSlice and LogTimeSlice stopped when
 neighbouring due points round to the same time

---
 src/args-callback/callbacks.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 01f95fe..6aeed0a 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -363,8 +363,10 @@ namespace hub::callback {
         opt_time_ = math::max_value<double>::value;  // nothing left, unless found below
         if (opt_interval_ > 0) {
             using std::floor;
-            Scalar const passed = floor((t - start_time_) / opt_interval_);
-            for (int i = 0; i < 3; ++i) {  // 'passed' is off by one at most, due to rounding
+            using std::nextafter;
+            Scalar const later = nextafter(t, math::max_value<Scalar>::value);  // times closer to t than this are passed
+            Scalar const passed = floor((later - start_time_) / opt_interval_);
+            for (int i = -1; i < 3; ++i) {  // 'passed' is off by one at most, due to rounding
                 Scalar const index = passed + i;
                 Scalar const next = index < opt_num_ ? start_time_ + index * opt_interval_ : end_time_;
                 if (index <= opt_num_ && next > t) {
@@ -467,8 +469,10 @@ namespace hub::callback {
         if (opt_interval_ > 1) {
             using std::floor;
             using std::log;
-            Scalar const passed = floor(log(t - start_time_) / log(opt_interval_));
-            for (int i = 0; i < 3; ++i) {  // 'passed' is off by one at most, due to rounding
+            using std::nextafter;
+            Scalar const later = nextafter(t, math::max_value<Scalar>::value);  // times closer to t than this are passed
+            Scalar const passed = floor(log(later - start_time_) / log(opt_interval_));
+            for (int i = -1; i < 3; ++i) {  // 'passed' is off by one at most, due to rounding
                 Scalar const index = passed + i;
                 Scalar const next = index < opt_num_ ? start_time_ + POW(opt_interval_, index) : end_time_;
                 if (index <= opt_num_ && next > t) {
-- 
2.43.0


From 12240f0062d1310e32961ee76cdda9bc8cc0e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 27/48] fix: submitting a task graph read its nodes while a run
 in progress changed them

---
 src/taskflow/core/executor.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 78859a2..231fc93 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -1004,7 +1004,10 @@ inline void Executor::_set_up_topology(Topology* tpg) {
   }
 
   tpg->_sources.clear();
-  tpg->_taskflow._graph.clear_detached();
+  {
+    std::lock_guard<std::mutex> lock(tpg->_taskflow._mtx);
+    tpg->_taskflow._graph.clear_detached();
+  }
   
   // scan each node in the graph and build up the links
   for(auto node : tpg->_taskflow._graph._nodes) {
@@ -1094,8 +1097,15 @@ tf::Future<void> Executor::run_until(Taskflow& f, P&& pred, C&& c) {
 
   _increment_topology();
   
+  bool empty;
+  {
+    // a run in progress may be storing detached tasks in the graph
+    std::lock_guard<std::mutex> lock(f._mtx);
+    empty = f.empty();
+  }
+
   // Special case of predicate
-  if(f.empty() || pred()) {
+  if(empty || pred()) {
     std::promise<void> promise;
     promise.set_value();
     _decrement_topology_and_notify();
-- 
2.43.0


From 5de3382f520bdfbf6fec55860f7bb7cfa7fc245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 28/48] fix: runs repeated by run_n and run_until started with
 join counters left over from branches not taken

---
 src/taskflow/core/executor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 231fc93..3817137 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -1036,8 +1036,7 @@ inline void Executor::_tear_down_topology(Topology* tpg) {
   // case 1: we still need to run the topology again
   if(!tpg->_is_cancelled && !tpg->_pred()) {
     assert(tpg->_join_counter == 0);
-    tpg->_join_counter = tpg->_sources.size();
-    _schedule(tpg->_sources); 
+    _set_up_topology(tpg);
   }
   // case 2: the final run of this topology
   else {
-- 
2.43.0


From f98507ca25b12e0587dc3629abf28f8f746a63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 29/48] fix: a task graph run by itself after it was composed
 joined the module task of the earlier run and never ended

---
 src/taskflow/core/executor.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 3817137..8de05fb 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -1013,6 +1013,7 @@ inline void Executor::_set_up_topology(Topology* tpg) {
   for(auto node : tpg->_taskflow._graph._nodes) {
     
     node->_topology = tpg;
+    node->_parent = nullptr;
     node->_clear_state();
 
     if(node->num_dependents() == 0) {
-- 
2.43.0


From cbd580fde57bd670e0ea45f251437f766dabb7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 30/48] fix: a composed task graph ran again the tasks detached
 by an earlier run of its own

---
 src/taskflow/core/executor.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 8de05fb..778c089 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -947,6 +947,11 @@ inline void Executor::_invoke_cudaflow_task(Worker& worker, Node* node) {
 inline void Executor::_invoke_module_task(Worker& w, Node* node) {
   _observer_prologue(w, node);
   auto module = std::get<Node::Module>(node->_handle).module;
+  {
+    // tasks detached when the module ran by itself are not part of it
+    std::lock_guard<std::mutex> lock(module->_mtx);
+    module->_graph.clear_detached();
+  }
   _invoke_dynamic_task_internal(w, node, module->_graph, false);
   _observer_epilogue(w, node);  
 }
-- 
2.43.0


From 3a6d7cbd07c7d0b8e06875eefa51c36509710dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 31/48] fix: submissions with nothing to run did not invoke
 their completion callback

---
 src/taskflow/core/executor.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 778c089..8365cb0 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -1112,6 +1112,7 @@ tf::Future<void> Executor::run_until(Taskflow& f, P&& pred, C&& c) {
   // Special case of predicate
   if(empty || pred()) {
     std::promise<void> promise;
+    c();
     promise.set_value();
     _decrement_topology_and_notify();
     return tf::Future<void>(promise.get_future(), std::monostate{});
-- 
2.43.0


From 0a07055d81d88a71c8d2e7b9eb7667d345bcd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 32/48] fix: num_topologies read the count without the lock the
 workers change it under

---
 src/taskflow/core/executor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 8365cb0..2f225be 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -198,7 +198,7 @@ class Executor {
     const size_t _MAX_YIELDS;
    
     std::condition_variable _topology_cv;
-    std::mutex _topology_mutex;
+    mutable std::mutex _topology_mutex;
     std::mutex _wsq_mutex;
 
     size_t _num_topologies {0};
@@ -308,6 +308,7 @@ inline size_t Executor::num_workers() const {
 
 // Function: num_topologies
 inline size_t Executor::num_topologies() const {
+  std::lock_guard<std::mutex> lock(_topology_mutex);
   return _num_topologies;
 }
     
-- 
2.43.0


From 336d75650c735174a845896712b6e53907fea3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 33/48] fix: a task kept giving back its semaphores after it
 had been queued to wait and could already have finished elsewhere

---
 src/taskflow/core/graph.hpp     |  6 +++++-
 src/taskflow/core/semaphore.hpp | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/taskflow/core/graph.hpp b/src/taskflow/core/graph.hpp
index 537dbdc..32fe954 100644
--- a/src/taskflow/core/graph.hpp
+++ b/src/taskflow/core/graph.hpp
@@ -439,11 +439,15 @@ inline bool Node::_acquire_all(std::vector<Node*>& nodes) {
   auto& to_acquire = _semaphores->to_acquire;
 
   for(size_t i = 0; i < to_acquire.size(); ++i) {
-    if(!to_acquire[i]->_try_acquire_or_wait(this)) {
+    if(!to_acquire[i]->_try_acquire()) {
       for(size_t j = 1; j <= i; ++j) {
         auto r = to_acquire[i-j]->_release();
         nodes.insert(end(nodes), begin(r), end(r));
       }
+      // once it waits, another worker may run and finish it: do not touch it then
+      if(!to_acquire[i]->_wait(this)) {
+        nodes.push_back(this);
+      }
       return false;
     }
   }
diff --git a/src/taskflow/core/semaphore.hpp b/src/taskflow/core/semaphore.hpp
index 75d49be..3b789ca 100644
--- a/src/taskflow/core/semaphore.hpp
+++ b/src/taskflow/core/semaphore.hpp
@@ -89,7 +89,9 @@ class Semaphore {
 
     std::vector<Node*> _waiters;
     
-    bool _try_acquire_or_wait(Node*);
+    bool _try_acquire();
+
+    bool _wait(Node*);
 
     std::vector<Node*> _release();
 };
@@ -98,16 +100,23 @@ inline Semaphore::Semaphore(int max_workers) :
   _counter(max_workers) {
 }
     
-inline bool Semaphore::_try_acquire_or_wait(Node* me) {
+inline bool Semaphore::_try_acquire() {
   std::lock_guard<std::mutex> lock(_mtx);
   if(_counter > 0) {
     --_counter;
     return true;
   }
-  else {
-    _waiters.push_back(me);
+  return false;
+}
+
+// the next release wakes me; false if there is no need to wait
+inline bool Semaphore::_wait(Node* me) {
+  std::lock_guard<std::mutex> lock(_mtx);
+  if(_counter > 0) {
     return false;
   }
+  _waiters.push_back(me);
+  return true;
 }
 
 inline std::vector<Node*> Semaphore::_release() {
-- 
2.43.0


From 0ea143c3c836d8dbd5b591c6e802591ff73f83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 34/48] fix: the cancellation flag of a run was written and
 read by several threads without synchronisation

---
 src/taskflow/core/topology.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/taskflow/core/topology.hpp b/src/taskflow/core/topology.hpp
index a9b8e51..39c0032 100644
--- a/src/taskflow/core/topology.hpp
+++ b/src/taskflow/core/topology.hpp
@@ -15,7 +15,7 @@ class TopologyBase {
 
   protected:
 
-  bool _is_cancelled { false };
+  std::atomic<bool> _is_cancelled { false };
 };
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 733d7a62a7efa5966f1e69b2a2bb9e144087883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 35/48] fix: cancelling a finished run reported success if
 another run of the same graph was queued

---
 src/taskflow/core/executor.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 2f225be..6378d4f 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -1061,9 +1061,10 @@ inline void Executor::_tear_down_topology(Topology* tpg) {
 
       assert(tpg->_join_counter == 0);
 
-      // Set the promise
-      tpg->_promise.set_value();
+      // Set the promise once the run can no longer be cancelled
+      auto p {std::move(tpg->_promise)};
       f._topologies.pop();
+      p.set_value();
       tpg = f._topologies.front().get();
 
       f._mtx.unlock();
-- 
2.43.0


From 1712c92615dc8549e5d255fb4f0bcd5829b70447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 36/48] fix: the parallel sort referred to a copy of the
 comparator that was already destroyed

---
 src/taskflow/core/algorithm/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/taskflow/core/algorithm/sort.hpp b/src/taskflow/core/algorithm/sort.hpp
index 5f5a0db..062ab77 100644
--- a/src/taskflow/core/algorithm/sort.hpp
+++ b/src/taskflow/core/algorithm/sort.hpp
@@ -343,7 +343,7 @@ void parallel_pdqsort(
     // Sort the left partition first using recursion and 
     // do tail recursion elimination for the right-hand partition.
     sf.silent_async(
-      [&sf, begin, pivot_pos, &comp, bad_allowed, leftmost] () mutable {
+      [&sf, begin, pivot_pos, comp, bad_allowed, leftmost] () mutable {
         parallel_pdqsort(sf, begin, pivot_pos, comp, bad_allowed, leftmost);
       }
     );
-- 
2.43.0


From 84efafdcab5f2934d0a5b1f44d64cab3eb27f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 37/48] fix: a parallel index loop over an empty range with
 step zero divided by zero

---
 src/taskflow/utility/iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/taskflow/utility/iterator.hpp b/src/taskflow/utility/iterator.hpp
index e2aa5b5..e438c51 100644
--- a/src/taskflow/utility/iterator.hpp
+++ b/src/taskflow/utility/iterator.hpp
@@ -8,7 +8,7 @@ namespace tf {
 template <typename T>
 constexpr std::enable_if_t<std::is_integral<std::decay_t<T>>::value, size_t>
 distance(T beg, T end, T step) {
-  return (end - beg + step + (step > 0 ? -1 : 1)) / step;
+  return beg == end ? 0 : (end - beg + step + (step > 0 ? -1 : 1)) / step;
 }
 
 template <typename T>
-- 
2.43.0


From 7f2768c3e1928163d2a0daf562d542de34552763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 38/48] fix: a work-stealing queue that grew published its new
 array without making its content visible to thieves

---
 src/taskflow/core/tsq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/taskflow/core/tsq.hpp b/src/taskflow/core/tsq.hpp
index 110d23f..3984cb9 100644
--- a/src/taskflow/core/tsq.hpp
+++ b/src/taskflow/core/tsq.hpp
@@ -178,7 +178,7 @@ void TaskQueue<T>::push(T o) {
     Array* tmp = a->resize(b, t);
     _garbage.push_back(a);
     std::swap(a, tmp);
-    _array.store(a, std::memory_order_relaxed);
+    _array.store(a, std::memory_order_release);
   }
 
   a->push(b, o);
-- 
2.43.0


From 4c06004a4f7bc64b4c51f67f255be2c2aa94718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 39/48] fix: TFProfObserver::num_tasks counted nesting levels
 instead of tasks

---
 src/taskflow/core/observer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/taskflow/core/observer.hpp b/src/taskflow/core/observer.hpp
index 4ca0166..2dc6ef8 100644
--- a/src/taskflow/core/observer.hpp
+++ b/src/taskflow/core/observer.hpp
@@ -612,7 +612,10 @@ inline size_t TFProfObserver::num_tasks() const {
   return std::accumulate(
     _timeline.segments.begin(), _timeline.segments.end(), size_t{0}, 
     [](size_t sum, const auto& exe){ 
-      return sum + exe.size(); 
+      for(const auto& level : exe) {
+        sum += level.size();
+      }
+      return sum; 
     }
   );
 }
-- 
2.43.0


From 2e704459372fc62975e68aa6937bd6648027ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:57 +0000
Subject: [PATCH 40/48] fix: the object pool kept its heap locked for ever when
 memory ran out

---
 src/taskflow/utility/object_pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/taskflow/utility/object_pool.hpp b/src/taskflow/utility/object_pool.hpp
index c03f011..d156e18 100644
--- a/src/taskflow/utility/object_pool.hpp
+++ b/src/taskflow/utility/object_pool.hpp
@@ -625,6 +625,7 @@ T* ObjectPool<T, S>::animate(ArgsT&&... args) {
       s = static_cast<Block*>(std::malloc(sizeof(Block)));
 
       if(s == nullptr) {
+        h.mutex.unlock();
         throw std::bad_alloc();
       }
 
-- 
2.43.0


From 4bb5a182201f8ba12e17684cdb3fcaa050f3ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:57 +0000
Subject: [PATCH 41/48] fix: recycling an object raced with moving its block to
 another heap

---
 src/taskflow/utility/object_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/taskflow/utility/object_pool.hpp b/src/taskflow/utility/object_pool.hpp
index d156e18..00a740a 100644
--- a/src/taskflow/utility/object_pool.hpp
+++ b/src/taskflow/utility/object_pool.hpp
@@ -102,7 +102,7 @@ class ObjectPool {
   };
 
   struct Block {
-    LocalHeap* heap;
+    std::atomic<LocalHeap*> heap;  // looked at before the lock of the heap is held
     Blocklist list_node;
     size_t i;
     size_t u;
@@ -695,7 +695,7 @@ void ObjectPool<T, S>::recycle(T* mem) {
   bool sync = false;
 
   do {
-    auto h = s->heap;    
+    LocalHeap* h = s->heap;
     
     // the block is in global heap
     if(h == nullptr) {
-- 
2.43.0


From 1249f24eaf23efc307e766d332d2073fbafd356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 42/48] fix: a thread pool whose threads cannot all be created
 reports it instead of terminating the process

---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index de94f40..5e98d1c 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -35,6 +35,8 @@ namespace hub::multi_thread {
 
         ThreadPool(size_t max_thread, size_t max_tasks);
 
+        explicit ThreadPool(size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {}
+
         ~ThreadPool();
 
         std::vector<std::thread> workers_;
@@ -48,7 +50,8 @@ namespace hub::multi_thread {
     /*---------------------------------------------------------------------------*\
          Class ThreadPool Implementation
     \*---------------------------------------------------------------------------*/
-    ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {
+    // Delegates, so that the destructor stops and joins the workers already started if a later one cannot be created.
+    ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : ThreadPool(max_tasks) {
         for (size_t i = 0; i < max_thread; ++i) {
             workers_.emplace_back([&]() {
                 Task task;
-- 
2.43.0


From 35893bb4ab32277813155ebc9e5fa2c653e9c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 43/48] fix: a pool worker takes its task without copying it,
 which could run out of memory and end the process

---
 src/multi-thread/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 5e98d1c..d4f58b3 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -62,7 +62,7 @@ namespace hub::multi_thread {
                             cv_.wait(lock);
                         }
                         if (stop_) return;
-                        task = tasks_.front();
+                        task = std::move(tasks_.front());
                         tasks_.pop();
                     }
                     task();
-- 
2.43.0


From 1d34d71282a4559103700395de3f2c97be38cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 44/48] fix: an executor whose workers cannot all be created
 reports it instead of terminating the process

---
 src/taskflow/core/executor.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 6378d4f..293350f 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -274,7 +274,18 @@ inline Executor::Executor(size_t N) :
     TF_THROW("no cpu workers to execute taskflows");
   }
   
-  _spawn(N);
+  try {
+    _spawn(N);
+  }
+  catch(...) {
+    // not all workers could be created: stop those that were
+    _done = true;
+    _notifier.notify(true);
+    for(auto& t : _threads){
+      t.join();
+    }
+    throw;
+  }
 
   // instantite the default observer if requested
   if(has_env(TF_ENABLE_PROFILER)) {
-- 
2.43.0


From 2701a5fefde4f50f716df430aa17c19d01e45720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 45/48] fix: an object whose constructor throws gives its place
 in the object pool back

---
 src/taskflow/utility/object_pool.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/taskflow/utility/object_pool.hpp b/src/taskflow/utility/object_pool.hpp
index 00a740a..2162db7 100644
--- a/src/taskflow/utility/object_pool.hpp
+++ b/src/taskflow/utility/object_pool.hpp
@@ -175,6 +175,7 @@ class ObjectPool {
     T* _allocate(Block*);
 
     void _deallocate(Block*, T*);
+    void _give_back(Block*, T*);
     void _blocklist_init_head(Blocklist*);
     void _blocklist_add_impl(Blocklist*, Blocklist*, Blocklist*);
     void _blocklist_push_front(Blocklist*, Blocklist*);
@@ -667,7 +668,13 @@ T* ObjectPool<T, S>::animate(ArgsT&&... args) {
 
   //printf("allocate %p (s=%p)\n", mem, s);
 
-  new (mem) T(std::forward<ArgsT>(args)...);
+  try {
+    new (mem) T(std::forward<ArgsT>(args)...);
+  }
+  catch(...) {
+    _give_back(s, mem);
+    throw;
+  }
 
   mem->_object_pool_block = s;
 
@@ -687,6 +694,14 @@ void ObjectPool<T, S>::recycle(T* mem) {
   Block* s = static_cast<Block*>(mem->_object_pool_block);
 
   mem->~T();
+
+  _give_back(s, mem);
+}
+
+// Procedure: _give_back
+// returns the storage of an object to its block
+template <typename T, size_t S>
+void ObjectPool<T, S>::_give_back(Block* s, T* mem) {
   
   //printf("deallocate %p (s=%p) M=%lu W=%lu X=%lu\n", mem, s, M, W, X);
 
-- 
2.43.0


From 80948bc52c9de1fc324978301be0c4a21f9cc89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 46/48] fix: a submission that throws left the executor or
 subflow waiting for it forever

---
 src/taskflow/core/executor.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index 293350f..fd3559e 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -327,8 +327,6 @@ inline size_t Executor::num_topologies() const {
 template <typename F, typename... ArgsT>
 auto Executor::async(F&& f, ArgsT&&... args) {
 
-  _increment_topology();
-
   using T = typename function_traits<F>::return_type;
   using R = std::conditional_t<std::is_same_v<T, void>, void, std::optional<T>>;
 
@@ -355,6 +353,9 @@ auto Executor::async(F&& f, ArgsT&&... args) {
     std::move(tpg)
   );
 
+  // counted once nothing can throw any more, or wait_for_all would wait forever
+  _increment_topology();
+
   _schedule(node);
 
   return fu;
@@ -364,8 +365,6 @@ auto Executor::async(F&& f, ArgsT&&... args) {
 template <typename F, typename... ArgsT>
 void Executor::silent_async(F&& f, ArgsT&&... args) {
 
-  _increment_topology();
-
   Node* node = node_pool.animate(
     std::in_place_type_t<Node::SilentAsync>{},
     [f=std::forward<F>(f), args...] () mutable { 
@@ -373,6 +372,8 @@ void Executor::silent_async(F&& f, ArgsT&&... args) {
     }
   );
 
+  _increment_topology();
+
   _schedule(node);
 }
 
@@ -1114,6 +1115,12 @@ template <typename P, typename C>
 tf::Future<void> Executor::run_until(Taskflow& f, P&& pred, C&& c) {
 
   _increment_topology();
+
+  // gives the count back if the run is not started, also when the predicate or the callback throws
+  struct Counted {
+    Executor* executor;
+    ~Counted() { if(executor) executor->_decrement_topology_and_notify(); }
+  } counted {this};
   
   bool empty;
   {
@@ -1127,7 +1134,6 @@ tf::Future<void> Executor::run_until(Taskflow& f, P&& pred, C&& c) {
     std::promise<void> promise;
     c();
     promise.set_value();
-    _decrement_topology_and_notify();
     return tf::Future<void>(promise.get_future(), std::monostate{});
   }
   
@@ -1146,6 +1152,7 @@ tf::Future<void> Executor::run_until(Taskflow& f, P&& pred, C&& c) {
     std::lock_guard<std::mutex> lock(f._mtx);
     
     f._topologies.push(tpg);
+    counted.executor = nullptr;
    
     if(f._topologies.size() == 1) {
       run_now = true;
@@ -1215,8 +1222,6 @@ inline void Subflow::detach() {
 template <typename F, typename... ArgsT>
 auto Subflow::async(F&& f, ArgsT&&... args) {
 
-  _parent->_join_counter.fetch_add(1);
-
   using T = typename function_traits<F>::return_type;
   using R = std::conditional_t<std::is_same_v<T, void>, void, std::optional<T>>;
 
@@ -1246,6 +1251,8 @@ auto Subflow::async(F&& f, ArgsT&&... args) {
   node->_topology = _parent->_topology;
   node->_parent = _parent;
 
+  _parent->_join_counter.fetch_add(1);
+
   _executor._schedule(node);
 
   return fu;
@@ -1255,8 +1262,6 @@ auto Subflow::async(F&& f, ArgsT&&... args) {
 template <typename F, typename... ArgsT>
 void Subflow::silent_async(F&& f, ArgsT&&... args) {
 
-  _parent->_join_counter.fetch_add(1);
-
   auto node = node_pool.animate(
     std::in_place_type_t<Node::SilentAsync>{},
     [f=std::forward<F>(f), args...] () mutable { 
@@ -1267,6 +1272,8 @@ void Subflow::silent_async(F&& f, ArgsT&&... args) {
   node->_topology = _parent->_topology;
   node->_parent = _parent;
 
+  _parent->_join_counter.fetch_add(1);
+
   _executor._schedule(node);
 }
 
-- 
2.43.0


From 4f66404b2193bbf7e1daef3330052f717f0695fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 47/48] fix: ConfigReader reports unreadable values and skips
 lines without a divider

---
 src/tools/config-reader.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 9cb727e..1a66977 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -75,6 +75,8 @@ namespace hub::tools {
                 if (line[0] == commenter || line.empty()) continue;
 
                 auto split = line.find(divider);
+                if (split == std::string::npos) continue;
+
                 auto key = line.substr(0, split);
                 auto val = line.substr(split + 1);
                 map_[key] = val;
@@ -94,10 +96,16 @@ namespace hub::tools {
     T ConfigReader::get(std::string const &key) {
         auto iskey = (map_.end() != map_.find(key));
         if (iskey) {
-            std::stringstream ss(map_[key]);
-            T value;
-            ss >> value;
-            return value;
+            if constexpr (std::is_same_v<T, std::string>) {
+                return map_[key];
+            } else {
+                std::stringstream ss(map_[key]);
+                T value;
+                if (!(ss >> value)) {
+                    spacehub_abort("Invalid value in the configure file for the key: ", key, "\r\n");
+                }
+                return value;
+            }
         } else {
             spacehub_abort("Invalid key for configure file!");
         }
-- 
2.43.0


From 1f0cfab285ab77d0099bf0481652488969ba48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:00 +0000
Subject: [PATCH 48/48] fix: workers started before the others were set up read
 their data unsynchronised

---
 src/taskflow/core/executor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/taskflow/core/executor.hpp b/src/taskflow/core/executor.hpp
index fd3559e..c5ba625 100644
--- a/src/taskflow/core/executor.hpp
+++ b/src/taskflow/core/executor.hpp
@@ -385,13 +385,16 @@ inline int Executor::this_worker_id() const {
 
 // Procedure: _spawn
 inline void Executor::_spawn(size_t N) {
+  // workers look at each other: all of them are set up before the first one starts
   for(size_t id=0; id<N; ++id) {
-
     _workers[id]._id = id;
     _workers[id]._vtm = id;
     _workers[id]._executor = this;
     _workers[id]._waiter = &_notifier._waiters[id];
-    
+  }
+
+  for(size_t id=0; id<N; ++id) {
+
     _threads.emplace_back([this] (Worker& w) -> void {
 
       _per_thread.worker = &w;
-- 
2.43.0

