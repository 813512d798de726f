From f6b25806b39fbeb061e852aee3cbc4db0a3602a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 01/23] fix: close descriptors and semaphores at most once, and
 never ones that were not opened

---
 EigenIPC/include/EigenIPC/Client.hpp | 16 ++++++++--------
 EigenIPC/include/EigenIPC/Server.hpp | 18 +++++++++---------
 EigenIPC/src/MemUtils.hpp            | 18 +++++++++++++++---
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..7fe4d9c 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -120,13 +120,13 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +146,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..0f6d432 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -123,13 +123,13 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -144,8 +144,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = nullptr; // semaphore for servers uniqueness
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..2a477b6 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -217,8 +217,14 @@ namespace EigenIPC{
                         VLevel vlevel = Journal::VLevel::V0,
                         bool unlink = false) {
 
-            // Closing the file descriptor (for this process only)
-            ::close(shm_fd);
+            // Closing the file descriptor (for this process only), if it's open
+            if (shm_fd != -1) {
+
+                ::close(shm_fd);
+
+                shm_fd = -1; // never close the same descriptor twice
+
+            }
 
             return_code = return_code + ReturnCode::MEMFDCLOSED;
 
@@ -526,7 +532,13 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
-            sem_close(sem); // closes semaphore for the current process
+            if (sem != nullptr && sem != SEM_FAILED) {
+
+                sem_close(sem); // closes semaphore for the current process
+
+                sem = nullptr; // never close the same semaphore twice
+
+            }
 
             return_code = return_code + ReturnCode::SEMCLOSE;
 
-- 
2.43.0


From 2c69115017cfe08fa3fa841a9e3e9ea3fe38b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 02/23] fix: close the descriptor of the running flag when a
 server closes

---
 EigenIPC/src/Server.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..1f5218b 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -697,6 +697,15 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // only closing (pending clients
+        // watch this flag)
+
         MemUtils::cleanUpMem(_mem_config.mem_path_mem_layout,
                              _mem_layout_shm_fd,
                              _journal,
-- 
2.43.0


From 0ebb3ba1935e4f5892bfeeef3261a42a7a2bebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 03/23] fix: attach twice counts one client, attach again leaks
 nothing

---
 EigenIPC/src/Client.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..bc64b19 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -106,6 +106,20 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::attach()
     {
+        if (_attached) {
+
+            return; // already attached
+
+        }
+
+        // returning whatever a previous attachment left open, before
+        // opening everything again
+        _terminated = false;
+
+        _cleanMems();
+
+        _terminated = false;
+
         if (_verbose &&
             _vlevel > VLevel::V1) {
 
-- 
2.43.0


From 51865517ad710e3abce95134c5251ff24ca29166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 04/23] fix: a client whose attach fails releases the data
 semaphore and is not counted

---
 EigenIPC/src/Client.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index bc64b19..8b92bef 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -142,20 +142,31 @@ namespace EigenIPC {
         // (at this point is actually guaranteed to be free anyway)
         _acquireData(true, true); // blocking
 
-        _checkDType(); // checks data type consistency
+        try {
 
-        _checkMemLayout(); // checks memory layout consistency
+            _checkDType(); // checks data type consistency
 
-        _n_rows = _n_rows_view(0, 0);
-        _n_cols = _n_cols_view(0, 0);
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+            _checkMemLayout(); // checks memory layout consistency
+
+            _n_rows = _n_rows_view(0, 0);
+            _n_cols = _n_cols_view(0, 0);
+
+            // we have now all the info to create the shared tensor
+            _initDataMem();
+
+            _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
+                                                _n_cols); // used to hold
+            // a copy of the shared tensor data
+
+        } catch (...) {
 
-        // we have now all the info to create the shared tensor
-        _initDataMem();
+            _releaseData(); // the server and the other clients are not affected
 
-        _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                            _n_cols); // used to hold
-        // a copy of the shared tensor data
+            throw;
+
+        }
+
+        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
         // releasing data semaphore so that other clients/the server can access the tensor
         _releaseData();
-- 
2.43.0


From 1a04dff88096343e27e3df0970d90a1d753d2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 05/23] fix: a server releases the data semaphore at run only
 if it holds it, also when run fails

---
 EigenIPC/include/EigenIPC/Server.hpp |  4 +++
 EigenIPC/src/Server.cpp              | 43 ++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 0f6d432..a71bdde 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -113,6 +113,9 @@ namespace EigenIPC{
 
             bool _running = false;
 
+            bool _holds_data = false; // data semaphore acquired at
+            // construction and not released yet
+
             bool _force_reconnection = false;
 
             bool _data_acquired = false; // aux. variable,
@@ -188,6 +191,7 @@ namespace EigenIPC{
             bool _acquireData(bool blocking = false,
                                 bool verbose = false);
             void _releaseData();
+            void _releaseHeldData();
 
             void _closeSems();
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 1f5218b..0ad30d2 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _holds_data = true; // until the first transition to running state
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -179,15 +181,23 @@ namespace EigenIPC {
 
         if (!isRunning()) {
             
-            _acquireSemTimeout(_mem_config.mem_path_server_sem,
-                        _srvr_sem,
-                        _verbose); // blocking. from this point on, 
-            // other servers trying to transition to running state will fail
-            // due to the sever semaphore being acquired
+            try {
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); // data can now be acquired by clients
+                _acquireSemTimeout(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _verbose); // blocking. from this point on, 
+                // other servers trying to transition to running state will fail
+                // due to the sever semaphore being acquired
+
+            } catch (...) {
+
+                _releaseHeldData(); // we are not going to use it
+
+                throw;
+
+            }
+
+            _releaseHeldData(); // data can now be acquired by clients
 
             // set the running flag to true
             _running = true;
@@ -656,6 +666,23 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_releaseHeldData()
+    {
+
+        if (_holds_data) { // only if acquired at construction and not yet
+            // released
+
+            _holds_data = false;
+
+            _releaseSem(_mem_config.mem_path_data_sem,
+                        _data_sem,
+                        _verbose);
+
+        }
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_cleanMetaMem()
     {
-- 
2.43.0


From 35723e7015e3b8cfadb4a85eadaa2b1b872b7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 06/23] fix: report failures of the system calls that set up
 the tensor memory

---
 EigenIPC/src/Client.cpp | 20 ++++++++++----------
 EigenIPC/src/Server.cpp | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 8b92bef..61ba3f9 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -827,6 +827,16 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
             !isin(ReturnCode::MEMSETFAIL,
@@ -834,16 +844,6 @@ namespace EigenIPC {
             !isin(ReturnCode::MEMMAPFAIL,
                  _return_code)) {
 
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
             _return_code = _return_code + ReturnCode::RESET;
 
         }
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 0ad30d2..a67d103 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -891,6 +891,17 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::initMem<Scalar, Layout>(
+                        _n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
             !isin(ReturnCode::MEMSETFAIL,
@@ -898,17 +909,6 @@ namespace EigenIPC {
             !isin(ReturnCode::MEMMAPFAIL,
                  _return_code)) {
 
-            MemUtils::initMem<Scalar, Layout>(
-                            _n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
             _return_code = _return_code + ReturnCode::RESET;
 
         }
-- 
2.43.0


From 18353050859cc1690e1a931a9a40ba3894ad6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 07/23] fix: fail when a semaphore cannot be opened instead of
 using it

---
 EigenIPC/src/Client.cpp   | 11 +++++++++++
 EigenIPC/src/MemUtils.hpp |  9 +++++++++
 EigenIPC/src/Server.cpp   | 11 +++++++++++
 3 files changed, 31 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 61ba3f9..2943ae8 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -948,6 +948,8 @@ namespace EigenIPC {
     void Client<Scalar, Layout>::_initSems()
     {
 
+        _return_code = _return_code + ReturnCode::RESET;
+
         MemUtils::semInit(_mem_config.mem_path_data_sem,
                           _data_sem,
                           _journal,
@@ -955,6 +957,15 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL,
+                 _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 2a477b6..793910e 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -858,6 +858,15 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
+                    if (isin(ReturnCode::SEMOPENFAIL,
+                             return_code)) {
+
+                        return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                        return;
+
+                    }
+
                     // recursive call. This will now work
                     acquireSemTimeout(sem_path,
                             sem,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index a67d103..f889167 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -926,6 +926,8 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::_initSems()
     {
 
+        _return_code = _return_code + ReturnCode::RESET;
+
         MemUtils::semInit(_mem_config.mem_path_server_sem,
                           _srvr_sem,
                           _journal,
@@ -940,6 +942,15 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL,
+                 _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From 3639479596b65d1fe3fe03df3a9716610065c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 08/23] fix: a server whose construction fails does not leave
 the data semaphore held

---
 EigenIPC/src/Server.cpp | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index f889167..e121efe 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -112,22 +112,32 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
-        MemUtils::checkMem(_mem_config.mem_path,
-                            _data_shm_fd,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel,
-                            _unlink_data); // checks if memory was already allocated
-        // if yes, cleans it up
+        try {
 
-        _return_code = _return_code + ReturnCode::RESET;
+            MemUtils::checkMem(_mem_config.mem_path,
+                                _data_shm_fd,
+                                _journal,
+                                _return_code,
+                                _verbose,
+                                _vlevel,
+                                _unlink_data); // checks if memory was already allocated
+            // if yes, cleans it up
 
-        // data memory
-        _initDataMem();
+            _return_code = _return_code + ReturnCode::RESET;
 
-        // auxiliary data
-        _initMetaMem();
+            // data memory
+            _initDataMem();
+
+            // auxiliary data
+            _initMetaMem();
+
+        } catch (...) {
+
+            _releaseHeldData(); // we are not going to run
+
+            throw;
+
+        }
 
         _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
                                             _n_cols); // used to hold
-- 
2.43.0


From 18374f3c6e3c8785f6dafa496fd35a4469e111ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 09/23] fix: string tensor refuses strings longer than its
 capacity and blocks outside of it before touching its buffer

---
 EigenIPC/src/StringTensor.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..d73206a 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -172,6 +172,7 @@ namespace EigenIPC {
         // ordered evaluation)
 
         return isRunning() &&
+               _fits(vec, col_index) &&
                _sh_mem.read(_buffer.block(0, col_index,
                                                 _n_rows, vec.size()), 0, col_index) && // just update the block
                _decode_vec(vec, col_index);
@@ -218,7 +219,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            str.size() > _max_chars) {
 
             return false;
         }
@@ -285,6 +287,15 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) {
+
+            if (str.size() > _max_chars) {
+
+                return false; // does not fit in a column
+
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
@@ -371,7 +382,7 @@ namespace EigenIPC {
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 || index + vec.size() > _length) {
 
             return false;
         }
-- 
2.43.0


From bac6fe41493531504eb3b50b574f162406854873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 10/23] fix: wait_and_ack reports a failed callback

---
 EigenIPC/src/Consumer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..b762cb6 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -120,28 +120,28 @@ namespace EigenIPC {
     bool Consumer::wait_and_ack(std::function<bool()> pre_ack,
                     int ms_timeout) {
 
-        _fail_count = 0;
+        int fail_count = 0; // not shared with ack()
         
         if (!wait(ms_timeout)) {
 
-            _fail_count += 1;
+            fail_count += 1;
 
         } else {
 
             if (!pre_ack()) {
 
-                _fail_count += 1;
+                fail_count += 1;
             }
 
             if (!ack()) { 
 
-                _fail_count += 1;
+                fail_count += 1;
 
             }
 
         } 
 
-        return _fail_count == 0;
+        return fail_count == 0;
     }
 
     bool Consumer::ack() {
-- 
2.43.0


From 6c153679462728437b0934e69dc4da168967181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 11/23] fix: a closed consumer refuses waits and
 acknowledgements

---
 EigenIPC/src/Consumer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index b762cb6..95cc839 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -86,6 +86,7 @@ namespace EigenIPC {
             _trigger_counter_clnt.close();
             _ack_counter_clnt.close();
 
+            _is_running = false;
             _closed = true;
         }
     }
-- 
2.43.0


From 3d9da94c6ee73ca5b61d74ac275e67cfbd10b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 12/23] fix: clock_nsleep sets the seconds of its request, also
 for a second and more

---
 EigenIPC/src/TimeUtils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/TimeUtils.hpp b/EigenIPC/src/TimeUtils.hpp
index 5b4855a..8567fa5 100644
--- a/EigenIPC/src/TimeUtils.hpp
+++ b/EigenIPC/src/TimeUtils.hpp
@@ -31,7 +31,7 @@ namespace EigenIPC {
 
             public:
 
-                PerfSleep();
+                PerfSleep() : _req(), _rem() {}
 
                 timespec _req, _rem;
 
@@ -57,7 +57,8 @@ namespace EigenIPC {
 
                 void clock_nsleep(int nsecs)
                 {
-                    _req.tv_nsec = nsecs;
+                    _req.tv_sec = nsecs / 1000000000;  // Convert nanoseconds to seconds
+                    _req.tv_nsec = nsecs % 1000000000;  // The remainder, in nanoseconds
 
                     clock_nanosleep(CLOCK_REALTIME, 0, &_req, &_rem);
                 }
-- 
2.43.0


From ac71e9fa45078f0b6f9be5cdc42025b23ea8eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 13/23] fix: describe every return code by its own name

---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index f35e7bb..ff0f14e 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -84,12 +84,15 @@ namespace EigenIPC {
                 {ReturnCode::SEMACQFAIL, "SEMACQFAIL"},
                 {ReturnCode::SEMACQTRY, "SEMACQTRY"},
                 {ReturnCode::SEMACQRETRY, "SEMACQRETRY"},
+                {ReturnCode::SEMACQSIGINT, "SEMACQSIGINT"},
                 {ReturnCode::SEMOPEN, "SEMOPEN"},
                 {ReturnCode::SEMOPENFAIL, "SEMOPENFAIL"},
                 {ReturnCode::SEMREL, "SEMREL"},
                 {ReturnCode::SEMRELFAIL, "SEMRELFAIL"},
                 {ReturnCode::SEMCLOSE, "SEMCLOSE"},
                 {ReturnCode::SEMUNLINK, "SEMUNLINK"},
+                {ReturnCode::WRITEFAIL, "WRITEFAIL"},
+                {ReturnCode::READFAIL, "READFAIL"},
                 // ... other codes
                 {ReturnCode::OTHER, "OTHER"},
                 {ReturnCode::UNKNOWN, "UNKNOWN"},
@@ -157,7 +160,7 @@ namespace EigenIPC {
         bool first = true;
 
         // Iterate through each base code and check if it is present in the combinedCode
-        for (unsigned long long i = 0; i <= 62; ++i) {
+        for (unsigned long long i = 0; i <= 63; ++i) {
 
             ReturnCode baseCode = static_cast<ReturnCode>(1ULL << i);
 
-- 
2.43.0


From 9201e358980d40291262f0fd8e162d0f67554e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 14/23] fix: a block of negative size does not fit in a tensor

---
 EigenIPC/include/EigenIPC/Helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Helpers.hpp b/EigenIPC/include/EigenIPC/Helpers.hpp
index fcef2f2..e172ede 100644
--- a/EigenIPC/include/EigenIPC/Helpers.hpp
+++ b/EigenIPC/include/EigenIPC/Helpers.hpp
@@ -63,7 +63,8 @@ namespace EigenIPC {
             }
 
             // Check if there's enough space for the submatrix
-            if (i + n_rows2fit > n_rows ||
+            if (n_rows2fit < 0 || n_cols2fit < 0 ||
+                i + n_rows2fit > n_rows ||
                 j + n_cols2fit > n_cols) {
 
                 if (verbose &&
-- 
2.43.0


From 8ac29fb8929778149c59d95c80c06e6a70633b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 15/23] fix: refuse arrays whose strides are not a multiple of
 the item size

---
 .../PyEigenIPC/src/PyEigenIPCUtils.hpp        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..7be4c42 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -50,6 +50,25 @@ namespace PyEigenIPC {
 
             } // we restrict ourselves to work with only 2D tensors
 
+            if ((buf_info.strides[0] % buf_info.itemsize != 0) ||
+                    (buf_info.strides[1] % buf_info.itemsize != 0)) { // cannot be
+                // expressed as a number of elements
+
+                std::string message = std::string("Expected strides which are multiples of the ") +
+                        std::string("item size (") + std::to_string(buf_info.itemsize) +
+                        std::string("), but got strides ") +
+                        std::to_string(buf_info.strides[0]) +
+                        std::string(", ") + std::to_string(buf_info.strides[1]);
+
+                EigenIPC::Journal::log("PyEigenIPC::Utils",
+                            "CheckInputBuffer",
+                            message,
+                            LogType::EXCEP);
+
+                return false;
+
+            }
+
 
             if ((Layout == EigenIPC::RowMajor) &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
-- 
2.43.0


From 794e4c6def6644a07400c97ba8a021812b89a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 16/23] fix: reading into a read-only array raises instead of
 modifying it

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 2 +-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 1363e69..7cd7283 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -69,7 +69,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 1444532..36c9e41 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -68,7 +68,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
-- 
2.43.0


From 5aed32b04cde7e0974a0c484b1174be9175c9066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 17/23] fix: read_str of a string tensor server takes the
 server

---
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..dde35ce 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
-- 
2.43.0


From 37227e06f8accef53d3def60dadf400ff116642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 18/23] fix: SharedTWrapper.read() checks the provided array
 against the numpy view (the torch view may not exist)

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 70b495151b3eae5b54c74b7395646a211362192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 19/23] fix: SharedTWrapper does not write negative indexes
 into its local view

---
 .../bindings/PyEigenIPC/wrappers/shared_data_view.py   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 88417cb..41584a8 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -106,8 +106,10 @@ class SharedTWrapper:
         end_row_index = row_index + data1.shape[0]
         end_col_index = col_index + data1.shape[1]
 
-        # Check if data1 fits within the bounds of data2
-        return end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
+        # Check if data1 fits within the bounds of data2 
+        # (negative indexes would wrap around)
+        return row_index >= 0 and col_index >= 0 and \
+            end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
 
     def _init_gpu_mirror(self):
         
@@ -197,6 +199,10 @@ class SharedTWrapper:
         if isinstance(data, (int, float, bool,
                             np.float32, np.float64)):  
             
+            if row_index < 0 or col_index < 0: # negative indexes would wrap 
+                # around in the numpy view, but are not valid in shared memory
+                return False
+            
             # write scalar into numpy view
             self._numpy_view[row_index, col_index] = data
             # write to shared memory
-- 
2.43.0


From c7eca95510ed406c44b5ddd38736537237e8d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 20/23] fix: SharedTWrapper.synch() refuses negative indexes
 and block sizes

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 41584a8..10a3ceb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -344,7 +344,9 @@ class SharedTWrapper:
         end_col_index = col_index + n_cols
 
         # Check if we are withing bounds
-        fits = (end_row_index <= self._numpy_view.shape[0] \
+        fits = (row_index >= 0 and col_index >= 0 \
+            and n_rows >= 0 and n_cols >= 0 \
+            and end_row_index <= self._numpy_view.shape[0] \
             and end_col_index <= self._numpy_view.shape[1])
         if not fits:
             return False
-- 
2.43.0


From bc37a8e5fc47919e3a326a46cf8af89ef89c29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 21/23] fix: SharedTensorDict.write() refuses data which would
 spill into the next name's rows

---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 74c42be..dcdc911 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -258,6 +258,18 @@ class SharedTensorDict():
 
         data_2D = np.atleast_2d(data)
 
+        if data_2D.shape[0] > self.dimensions[data_idx]: 
+            # would overwrite the data of the following names
+
+            exception = f"Provided data has {data_2D.shape[0]} rows, but {name} only has " + \
+                f"{self.dimensions[data_idx]}!"
+
+            Journal.log(self.__class__.__name__,
+                        "write",
+                        exception,
+                        LogType.EXCEP,
+                        throw_when_excep = True)
+
         if retry: 
 
             self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-- 
2.43.0


From 4e2329e53d881ad4ba7064c28c74e288ced91ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 22/23] fix: FromRos.run() can be called again once running

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0ac21b3..8869849 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -182,7 +182,7 @@ class FromRos():
 
                 self._is_running = True # ready
         
-        return sub_success and self._is_running
+        return self._is_running
 
     def close(self):
 
-- 
2.43.0


From ac054672af37522ff995a8e0f2376f591f5b0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 23/23] fix: ToRos.run() attaches a tensor client which is not
 running (Client has no run())

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index aeebeda..ac51d17 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -226,7 +226,13 @@ class ToRos():
                         
             # manually run client if not running
 
-            self._client.run()
+            if self._is_string_tensor:
+
+                self._client.run()
+
+            else:
+
+                self._client.attach()
         
         self._init_publisher()
     
-- 
2.43.0

