From 89a1cb704d677d71b6ebfa65bfacaa4c217c1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 01/55] fix: release the data semaphore only once when a server
 is run again after stop()

run() posted the data semaphore every time, so after run/stop/run its value
was 2 and two participants could enter the lock at the same time.
---
 EigenIPC/include/EigenIPC/Server.hpp |  3 +++
 EigenIPC/src/Server.cpp              | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..04574b7 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -113,6 +113,9 @@ namespace EigenIPC{
 
             bool _running = false;
 
+            bool _init_lock_held = false; // whether the data semaphore acquired
+            // upon construction still has to be released
+
             bool _force_reconnection = false;
 
             bool _data_acquired = false; // aux. variable,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..20b0547 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _init_lock_held = true; // until the server is run for the first time
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -185,9 +187,16 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); // data can now be acquired by clients
+            if (_init_lock_held) { // only the first time: the data semaphore was
+                // acquired upon construction
+
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); // data can now be acquired by clients
+
+                _init_lock_held = false;
+
+            }
 
             // set the running flag to true
             _running = true;
-- 
2.43.0


From 113e6718baa31269162614ec91a10f73a1952ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 02/55] fix: a client refused by attach() no longer keeps the
 data semaphore

The data type and memory layout checks throw while the semaphore is held, which
locked out the server and all other clients for ever.
---
 EigenIPC/src/Client.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..46e5530 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -128,9 +128,19 @@ namespace EigenIPC {
         // (at this point is actually guaranteed to be free anyway)
         _acquireData(true, true); // blocking
 
-        _checkDType(); // checks data type consistency
+        try {
 
-        _checkMemLayout(); // checks memory layout consistency
+            _checkDType(); // checks data type consistency
+
+            _checkMemLayout(); // checks memory layout consistency
+
+        } catch (...) {
+
+            _releaseData(); // a refused client must not leave the data locked
+
+            throw;
+
+        }
 
         _n_rows = _n_rows_view(0, 0);
         _n_cols = _n_cols_view(0, 0);
-- 
2.43.0


From 37b1d27a86b612a74c2206a5e669df1a6659053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 03/55] fix: tell data types apart by type instead of by size
 when attaching

int and float have the same size, so a float client could attach to an int
server (and vice versa) and read reinterpreted bits.
---
 EigenIPC/src/Client.cpp | 10 ++++------
 EigenIPC/src/Server.cpp |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 46e5530..2cf8c77 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -528,13 +528,11 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_checkDType()
     {
-        if (_dtype_view(0, 0) != sizeof(Scalar)) {
+        if (_dtype_view(0, 0) != static_cast<int>(CppTypeToDType<Scalar>::value)) {
 
-            // not impeccable: different types may have in general different sizes
-
-            std::string error = std::string("Client initialized with element size of ") +
-                    std::to_string(sizeof(Scalar)) +
-                    std::string(", while the Server was initialized with size ") +
+            std::string error = std::string("Client initialized with data type code ") +
+                    std::to_string(static_cast<int>(CppTypeToDType<Scalar>::value)) +
+                    std::string(", while the Server was initialized with code ") +
                     std::to_string(_dtype_view(0, 0));
 
             _journal.log(__FUNCTION__,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 20b0547..a5640f0 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -843,7 +843,7 @@ namespace EigenIPC {
 
             _mem_layout_view(0, 0) = _mem_layout; // mem layout
 
-            _dtype_view(0, 0) = sizeof(Scalar);
+            _dtype_view(0, 0) = static_cast<int>(CppTypeToDType<Scalar>::value);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 9498456ffd043a327c9377c5b2dad72850f0c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 04/55] fix: creating a second server no longer wipes the
 memory of a running one

Without force_reconnection, constructing a server while another one was running
(and its data semaphore was free) unlinked the shared memory, reset the clients
counter and the running flag and kept the data semaphore; only run() failed.
---
 EigenIPC/include/EigenIPC/Server.hpp |  2 ++
 EigenIPC/src/Server.cpp              | 31 ++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 04574b7..09ef0a1 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -199,6 +199,8 @@ namespace EigenIPC{
 
             void _checkIsRunning();
 
+            bool _otherServerIsRunning();
+
     };
 
 }
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index a5640f0..0d8d7f6 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -110,6 +110,26 @@ namespace EigenIPC {
 
         _init_lock_held = true; // until the server is run for the first time
 
+        if (!_force_reconnection && _otherServerIsRunning()) {
+
+            // do not touch the memory of the running server
+
+            _releaseSem(_mem_config.mem_path_data_sem,
+                        _data_sem,
+                        _verbose);
+
+            _init_lock_held = false;
+
+            std::string error = std::string("A server at ") + _mem_config.mem_path +
+                    std::string(" is already running.");
+
+            _journal.log(__FUNCTION__,
+                error,
+                LogType::EXCEP,
+                true); // throw exception
+
+        }
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -175,6 +195,17 @@ namespace EigenIPC {
 
         }
     }
+
+    template <typename Scalar, int Layout>
+    bool Server<Scalar, Layout>::_otherServerIsRunning()
+    {
+        int value = 1;
+
+        // a running server holds the server semaphore
+        return sem_getvalue(_srvr_sem, &value) == 0 && value <= 0;
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::run()
     {
-- 
2.43.0


From d8281069a389ad43476d35d64bef9cd3c2021e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 05/55] fix: report failures of memory and semaphore creation
 instead of swallowing them

_initDataMem() checked the return code before calling initMem() and reset it
afterwards, _initSems() did not check it at all and _releaseSem() reset it before
checking, so that a Server/Client whose memory or semaphores could not be created
looked fine and crashed at the first access. A client which cannot map the data
also releases the data semaphore and is not counted.
---
 EigenIPC/src/Client.cpp   | 49 +++++++++++++++++++++++++--------------
 EigenIPC/src/MemUtils.hpp |  8 +++++++
 EigenIPC/src/Server.cpp   | 40 +++++++++++++++++++++-----------
 3 files changed, 65 insertions(+), 32 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 2cf8c77..a11b22a 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -134,6 +134,12 @@ namespace EigenIPC {
 
             _checkMemLayout(); // checks memory layout consistency
 
+            _n_rows = _n_rows_view(0, 0);
+            _n_cols = _n_cols_view(0, 0);
+
+            // we have now all the info to create the shared tensor
+            _initDataMem();
+
         } catch (...) {
 
             _releaseData(); // a refused client must not leave the data locked
@@ -142,13 +148,8 @@ namespace EigenIPC {
 
         }
 
-        _n_rows = _n_rows_view(0, 0);
-        _n_cols = _n_cols_view(0, 0);
         _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
-        // we have now all the info to create the shared tensor
-        _initDataMem();
-
         _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
@@ -655,9 +656,6 @@ namespace EigenIPC {
                             verbose,
                             _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -666,6 +664,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
@@ -810,6 +810,16 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
             !isin(ReturnCode::MEMSETFAIL,
@@ -817,16 +827,6 @@ namespace EigenIPC {
             !isin(ReturnCode::MEMMAPFAIL,
                  _return_code)) {
 
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
             _return_code = _return_code + ReturnCode::RESET;
 
         }
@@ -931,6 +931,8 @@ namespace EigenIPC {
     void Client<Scalar, Layout>::_initSems()
     {
 
+        _return_code = _return_code + ReturnCode::RESET;
+
         MemUtils::semInit(_mem_config.mem_path_data_sem,
                           _data_sem,
                           _journal,
@@ -938,6 +940,17 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL,
+                _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..1a5b543 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -846,6 +846,14 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
+                    if (sem == SEM_FAILED) { // could not recreate it
+
+                        return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                        return;
+
+                    }
+
                     // recursive call. This will now work
                     acquireSemTimeout(sem_path,
                             sem,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 0d8d7f6..6cb97d2 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -649,9 +649,6 @@ namespace EigenIPC {
                         verbose, // no verbosity (this is called very frequently)
                         _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -660,6 +657,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
@@ -895,6 +894,17 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::initMem<Scalar, Layout>(
+                        _n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
             !isin(ReturnCode::MEMSETFAIL,
@@ -902,17 +912,6 @@ namespace EigenIPC {
             !isin(ReturnCode::MEMMAPFAIL,
                  _return_code)) {
 
-            MemUtils::initMem<Scalar, Layout>(
-                            _n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
             _return_code = _return_code + ReturnCode::RESET;
 
         }
@@ -930,6 +929,8 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::_initSems()
     {
 
+        _return_code = _return_code + ReturnCode::RESET;
+
         MemUtils::semInit(_mem_config.mem_path_server_sem,
                           _srvr_sem,
                           _journal,
@@ -944,6 +945,17 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL,
+                _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From bfeb28e44f716eed9a9a60f79a22fc51ec490031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 06/55] fix: close every descriptor and semaphore exactly once

checkMem() closed its descriptor twice, a client that never attached closed
uninitialised descriptors and semaphores (e.g. somebody else's file), closing a
server leaked the descriptor of the running flag and left the data memory linked,
and using the lock before attach() or after close() dereferenced a dangling
pointer. Closed handles are now marked as such; using one raises an error.
---
 EigenIPC/include/EigenIPC/Client.hpp | 16 ++++-----
 EigenIPC/include/EigenIPC/Server.hpp | 18 +++++-----
 EigenIPC/src/MemUtils.hpp            | 52 +++++++++++++++++++++-------
 EigenIPC/src/Server.cpp              | 11 +++++-
 4 files changed, 66 insertions(+), 31 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..7fe4d9c 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -120,13 +120,13 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +146,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 09ef0a1..e9ecfde 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -126,13 +126,13 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -147,8 +147,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = nullptr; // semaphore for servers uniqueness
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 1a5b543..0990651 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -218,7 +218,13 @@ namespace EigenIPC{
                         bool unlink = false) {
 
             // Closing the file descriptor (for this process only)
-            ::close(shm_fd);
+            if (shm_fd != -1) {
+
+                ::close(shm_fd);
+
+                shm_fd = -1; // so that it's never closed twice
+
+            }
 
             return_code = return_code + ReturnCode::MEMFDCLOSED;
 
@@ -307,15 +313,6 @@ namespace EigenIPC{
 
                 }
 
-                if (shm_fd != -1) {
-                    // Close the file descriptor opened for checking existence
-
-                    ::close(shm_fd);
-
-                    return_code = return_code + ReturnCode::MEMFDCLOSED;
-
-                }
-
             }
 
         }
@@ -484,6 +481,8 @@ namespace EigenIPC{
             if (sem == SEM_FAILED) {
                 // Handle semaphore creation error
 
+                sem = nullptr;
+
                 return_code = return_code + ReturnCode::SEMOPENFAIL;
 
                 if (verbose) {
@@ -526,7 +525,13 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
-            sem_close(sem); // closes semaphore for the current process
+            if (sem != nullptr && sem != SEM_FAILED) {
+
+                sem_close(sem); // closes semaphore for the current process
+
+            }
+
+            sem = nullptr;
 
             return_code = return_code + ReturnCode::SEMCLOSE;
 
@@ -591,7 +596,7 @@ namespace EigenIPC{
             }
 
             // Release the semaphore
-            if (sem_post(sem) == -1) {
+            if (sem == nullptr || sem_post(sem) == -1) {
 
                 // Handle semaphore release error
 
@@ -627,6 +632,13 @@ namespace EigenIPC{
         // semaphore acquisition
         inline int semBlockingWait(sem_t* sem,
                         ReturnCode& return_code) {
+
+            if (sem == nullptr) { // not open
+
+                return_code = return_code + ReturnCode::UNKNOWN + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
             
             // this is blocking unless some signal is received
 
@@ -664,6 +676,13 @@ namespace EigenIPC{
         inline int semTimedWait(sem_t* sem,
                         struct timespec timeout,
                         ReturnCode& return_code) {
+
+            if (sem == nullptr) { // not open
+
+                return_code = return_code + ReturnCode::UNKNOWN + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
             
             // blocking wait with timeout
 
@@ -708,6 +727,13 @@ namespace EigenIPC{
         inline int SemTryWait(sem_t*& sem,
                          ReturnCode& return_code) {
 
+            if (sem == nullptr) { // not open
+
+                return_code = return_code + ReturnCode::UNKNOWN + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             // this is nonblocking --> one-shot acquisition 
 
             // try to acquire the semaphore
@@ -846,7 +872,7 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
-                    if (sem == SEM_FAILED) { // could not recreate it
+                    if (sem == nullptr) { // could not recreate it
 
                         return_code = return_code + ReturnCode::SEMACQFAIL;
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 6cb97d2..bda59d1 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -744,6 +744,14 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // not unlinked: clients may be waiting on it
+
         _return_code = _return_code + ReturnCode::RESET;
 
 
@@ -763,7 +771,8 @@ namespace EigenIPC {
                                  _journal,
                                  _return_code,
                                  _verbose,
-                                 _vlevel);
+                                 _vlevel,
+                                 _unlink_data);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 0b1302309cef78a18d9c7868cf9eebb04f3aa458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 07/55] fix: attaching a client twice or again does not inflate
 the clients counter

attach() on an attached client counted it again, a re-attached client leaked all
the descriptors of the previous attachment, and one re-attached after close() was
neither detached nor cleaned up by its destructor.
---
 EigenIPC/src/Client.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index a11b22a..7be375d 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -118,6 +118,16 @@ namespace EigenIPC {
 
         }
 
+        if (_attached) {
+
+            return; // nothing to do (must not be counted twice)
+
+        }
+
+        _terminated = false;
+        _cleanMems(); // gives back what a previous attachment may have left open
+        _terminated = false; // so that close() will clean up again
+
         _initMetaMem(); // initializes meta-memory
 
         _waitForServer();  // waits until server is properly initialized
-- 
2.43.0


From 7e1e4557ff682ae2608bd09cb68e8ac56faebc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 08/55] fix: a server which cannot be created or never runs
 gives the data semaphore back

A constructor throwing after the acquisition of the data semaphore left it held
and leaked all descriptors, and so did closing a server which was never run.
---
 EigenIPC/include/EigenIPC/Server.hpp |  4 ++
 EigenIPC/src/Server.cpp              | 82 ++++++++++++++++++++++++++--
 2 files changed, 80 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index e9ecfde..b5a45bf 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -168,6 +168,10 @@ namespace EigenIPC{
 
             std::string _getThisName();
 
+            void _initialize();
+            void _undoInit();
+            void _releaseInitLock();
+
             void _initDataMem();
             void _initMetaMem();
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index bda59d1..87946ea 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -102,6 +102,23 @@ namespace EigenIPC {
         _sem_timeout.tv_sec = 0;
         _sem_timeout.tv_nsec = timeoutInNanoseconds % 1000000000;
 
+        try {
+
+            _initialize();
+
+        } catch (...) {
+
+            _undoInit(); // the destructor won't be called
+
+            throw;
+
+        }
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_initialize() {
+
         _initSems(); // creates necessary semaphores
 
         _acquireSemTimeout(_mem_config.mem_path_data_sem,
@@ -114,12 +131,6 @@ namespace EigenIPC {
 
             // do not touch the memory of the running server
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose);
-
-            _init_lock_held = false;
-
             std::string error = std::string("A server at ") + _mem_config.mem_path +
                     std::string(" is already running.");
 
@@ -169,6 +180,63 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_releaseInitLock() {
+
+        if (_init_lock_held) {
+
+            _init_lock_held = false;
+
+            MemUtils::releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel);
+
+        }
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_undoInit() {
+
+        _releaseInitLock();
+
+        // closing everything which was opened, without unlinking
+        // (may be in use by others)
+        for (int* fd : {&_data_shm_fd, &_nrows_shm_fd, &_ncols_shm_fd,
+                        &_n_clients_shm_fd, &_dtype_shm_fd,
+                        &_isrunning_shm_fd, &_mem_layout_shm_fd}) {
+
+            MemUtils::cleanUpMem(_mem_config.mem_path,
+                                 *fd,
+                                 _journal,
+                                 _return_code,
+                                 _verbose,
+                                 _vlevel,
+                                 false);
+
+        }
+
+        MemUtils::semClose(_mem_config.mem_path_server_sem,
+                           _srvr_sem,
+                           _journal,
+                           _return_code,
+                           _verbose,
+                           _vlevel,
+                           false);
+
+        MemUtils::semClose(_mem_config.mem_path_data_sem,
+                           _data_sem,
+                           _journal,
+                           _return_code,
+                           _verbose,
+                           _vlevel,
+                           false);
+
+    }
+
     template <typename Scalar, int Layout>
     Server<Scalar, Layout>::~Server() {
 
@@ -299,6 +367,8 @@ namespace EigenIPC {
 
         stop(); // stop server if running
 
+        _releaseInitLock(); // if it was never run
+
         _cleanMems(); // cleans up all memory,
         // semaphores included (if necessary)
 
-- 
2.43.0


From 48723c5d980e320faa6394f80596bdc4c682b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 09/55] fix: a signal received while a client is being
 destroyed does not abort the process

The destructor detaches, which waits for the data semaphore and throws if
interrupted; an exception leaving a destructor terminates the program.
---
 EigenIPC/src/Client.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 7be375d..29f68fc 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -81,7 +81,20 @@ namespace EigenIPC {
 
         if (!_terminated) {
 
-            close();
+            try {
+
+                close();
+
+            } catch (const std::exception& e) { // e.g. interrupted by a signal
+                // while waiting for the data: a destructor must not throw
+
+                _journal.log(__FUNCTION__,
+                    e.what(),
+                    LogType::WARN);
+
+                _cleanMems();
+
+            }
         }
 
     }
-- 
2.43.0


From 47dff217e65bc85bb6a7d698b330d99cd5c6365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 10/55] fix: a client waiting for a server does not use the
 description of a previous one

The description (rows, columns, type...) was mapped before waiting. If the server
which had published it was closed without running and another one was started
instead, the client attached with stale dimensions and even truncated the new
server's memory to the old size.
---
 EigenIPC/include/EigenIPC/Client.hpp |  1 +
 EigenIPC/src/Client.cpp              | 47 +++++++++++++++++++++-------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 7fe4d9c..9ee37c5 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -194,6 +194,7 @@ namespace EigenIPC{
 
             void _initDataMem();
             void _initMetaMem();
+            void _initIsRunningMem();
 
             void _initSems();
 
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 29f68fc..cd9fbb7 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -141,10 +141,13 @@ namespace EigenIPC {
         _cleanMems(); // gives back what a previous attachment may have left open
         _terminated = false; // so that close() will clean up again
 
-        _initMetaMem(); // initializes meta-memory
+        _initIsRunningMem(); // the running flag (never unlinked by servers)
 
         _waitForServer();  // waits until server is properly initialized
 
+        _initMetaMem(); // initializes meta-memory. To be done only now: before, it may
+        // still be the one of a previous server
+
         _initSems(); // creates necessary semaphores
 
         // acquire shared data semaphore or waits for it
@@ -863,6 +866,38 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_initIsRunningMem()
+    {
+        _return_code = _return_code + ReturnCode::RESET; // resets return code
+
+        MemUtils::initMem<bool>(1,
+                        1,
+                        _mem_config.mem_path_isrunning,
+                        _isrunning_shm_fd,
+                        _isrunning_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
+        _return_code = _return_code + ReturnCode::RESET;
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_initMetaMem()
     {
@@ -910,16 +945,6 @@ namespace EigenIPC {
                         _verbose,
                         _vlevel);
 
-        MemUtils::initMem<bool>(1,
-                        1,
-                        _mem_config.mem_path_isrunning,
-                        _isrunning_shm_fd,
-                        _isrunning_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
         MemUtils::initMem<int>(1,
                         1,
                         _mem_config.mem_path_mem_layout,
-- 
2.43.0


From 0563ad6d3c45623f1e6745a61d7557f5772a2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 11/55] fix: refuse strings which are too long and negative
 indices when writing strings

Both wrote outside of the encoding buffer: a string of more than 1024 bytes past
its column, a vector of strings at a negative index before its start.
---
 EigenIPC/include/EigenIPC/StringTensor.hpp |  2 ++
 EigenIPC/src/StringTensor.cpp              | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 7bf1d86..e054b63 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -150,6 +150,8 @@ namespace EigenIPC {
             bool _fits(const std::vector<std::string>& vec,
                        int index);
 
+            bool _fits(const std::string& str); // not longer than the maximum
+
             void _encode_str(const std::string& str,
                              int col_index);
 
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..7234509 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -218,7 +218,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            !_fits(str)) {
 
             return false;
         }
@@ -285,6 +286,14 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) { // before modifying anything
+
+            if (!_fits(str)) {
+
+                return false;
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
@@ -371,7 +380,7 @@ namespace EigenIPC {
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 || index + vec.size() > static_cast<size_t>(_length)) {
 
             return false;
         }
@@ -380,4 +389,11 @@ namespace EigenIPC {
 
     }
 
+    template <typename ShMemType>
+    bool StringTensor<ShMemType>::_fits(const std::string& str) {
+
+        return str.size() <= static_cast<size_t>(_max_chars);
+
+    }
+
 }
-- 
2.43.0


From eac3cc647747c25391c215b80cf129a67ceaef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 12/55] fix: getSharedMem() of a string tensor does not return
 a copy

The destructor of the copy closed the descriptors and semaphores of the original,
unlinked its memory (server) or detached it (client).
---
 EigenIPC/include/EigenIPC/StringTensor.hpp | 2 +-
 EigenIPC/src/StringTensor.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index e054b63..5a700c5 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -100,7 +100,7 @@ namespace EigenIPC {
 
             int getLength();
 
-            ShMemType getSharedMem();
+            ShMemType& getSharedMem(); // not a copy: this object keeps managing the memory
 
             std::string getNamespace() const;
             std::string getBasename() const;
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 7234509..0cf3ad0 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -121,13 +121,13 @@ namespace EigenIPC {
     }
     
     template <>
-    StrServer StringTensor<StrServer>::getSharedMem() {
+    StrServer& StringTensor<StrServer>::getSharedMem() {
 
         return _sh_mem;
     }
 
     template <>
-    StrClient StringTensor<StrClient>::getSharedMem() {
+    StrClient& StringTensor<StrClient>::getSharedMem() {
 
         return _sh_mem;
     }
-- 
2.43.0


From f3e403c80127b48c397e44a7d4f52f350d7d3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 13/55] fix: views of negative size are refused

createViewFrom() accepted negative dimensions and returned a view of them.
---
 EigenIPC/include/EigenIPC/Helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Helpers.hpp b/EigenIPC/include/EigenIPC/Helpers.hpp
index fcef2f2..e172ede 100644
--- a/EigenIPC/include/EigenIPC/Helpers.hpp
+++ b/EigenIPC/include/EigenIPC/Helpers.hpp
@@ -63,7 +63,8 @@ namespace EigenIPC {
             }
 
             // Check if there's enough space for the submatrix
-            if (i + n_rows2fit > n_rows ||
+            if (n_rows2fit < 0 || n_cols2fit < 0 ||
+                i + n_rows2fit > n_rows ||
                 j + n_cols2fit > n_cols) {
 
                 if (verbose &&
-- 
2.43.0


From 9c3bfa9954dbfd5d9f3406c60f5e751b0ecb4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 14/55] fix: every return code has its own value and
 description

SEMACQRETRY had the value of SEMACQTRY, WRITEFAIL and READFAIL were described as
UNKNOWN and UNKNOWN itself was never described.
---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index f35e7bb..675aaf8 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -43,7 +43,6 @@ namespace EigenIPC {
         SEMACQ = 1ULL << 16, // semaphore acquired
         SEMACQFAIL = 1ULL << 17, // semaphore acquisition failed
         SEMACQTRY = 1ULL << 18, // trying semaphore acquisition
-        SEMACQRETRY = 1ULL << 18, // retrying semaphore acquisition
         SEMACQSIGINT = 1ULL << 19, // retrying semaphore acquisition
         SEMOPEN = 1ULL << 20, // semaphore opened
         SEMOPENFAIL = 1ULL << 21, // failed to open semaphore
@@ -53,6 +52,7 @@ namespace EigenIPC {
         SEMUNLINK = 1ULL << 25, // unlinked semaphore
         WRITEFAIL = 1ULL << 26, // failed to write to memory
         READFAIL = 1ULL << 27, // failed to read from memory
+        SEMACQRETRY = 1ULL << 28, // retrying semaphore acquisition
         // ... up to 1ULL << 62
         OTHER = 1ULL << 62,
         UNKNOWN = 1ULL << 63,
@@ -90,6 +90,8 @@ namespace EigenIPC {
                 {ReturnCode::SEMRELFAIL, "SEMRELFAIL"},
                 {ReturnCode::SEMCLOSE, "SEMCLOSE"},
                 {ReturnCode::SEMUNLINK, "SEMUNLINK"},
+                {ReturnCode::WRITEFAIL, "WRITEFAIL"},
+                {ReturnCode::READFAIL, "READFAIL"},
                 // ... other codes
                 {ReturnCode::OTHER, "OTHER"},
                 {ReturnCode::UNKNOWN, "UNKNOWN"},
@@ -157,7 +159,7 @@ namespace EigenIPC {
         bool first = true;
 
         // Iterate through each base code and check if it is present in the combinedCode
-        for (unsigned long long i = 0; i <= 62; ++i) {
+        for (unsigned long long i = 0; i <= 63; ++i) {
 
             ReturnCode baseCode = static_cast<ReturnCode>(1ULL << i);
 
-- 
2.43.0


From 8cef77cd8172236f84795bb44b5f0ca7e6d279bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 15/55] fix: an interrupted semaphore acquisition is described

---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index 675aaf8..70db39d 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -84,6 +84,7 @@ namespace EigenIPC {
                 {ReturnCode::SEMACQFAIL, "SEMACQFAIL"},
                 {ReturnCode::SEMACQTRY, "SEMACQTRY"},
                 {ReturnCode::SEMACQRETRY, "SEMACQRETRY"},
+                {ReturnCode::SEMACQSIGINT, "SEMACQSIGINT"},
                 {ReturnCode::SEMOPEN, "SEMOPEN"},
                 {ReturnCode::SEMOPENFAIL, "SEMOPENFAIL"},
                 {ReturnCode::SEMREL, "SEMREL"},
-- 
2.43.0


From ce1ef84eb3255beafeb4584d5aed61ee0106b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 16/55] fix: asking a server which was never run for its
 clients does not block forever

---
 EigenIPC/src/Server.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 87946ea..b54fdca 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -388,6 +388,12 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     int Server<Scalar, Layout>::getNClients() {
 
+        if (_init_lock_held) { // never run: this server itself holds the data
+
+            return _n_clients_view(0, 0);
+
+        }
+
         _acquireData(true, false);
 
         _n_clients = _n_clients_view(0, 0);
-- 
2.43.0


From ed28a4133a6e63b59efb7301d1c43648a5fd47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 17/55] fix: a closed server created with forced reconnection
 cannot be run again

---
 EigenIPC/src/Server.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index b54fdca..49b50fc 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -279,6 +279,18 @@ namespace EigenIPC {
     {
 
         if (!isRunning()) {
+
+            if (_terminated) { // closed: there's no memory to be served anymore
+
+                std::string error = std::string("Server at ") + _mem_config.mem_path +
+                        std::string(" was closed and cannot be run again.");
+
+                _journal.log(__FUNCTION__,
+                    error,
+                    LogType::EXCEP,
+                    true); // throw exception
+
+            }
             
             _acquireSemTimeout(_mem_config.mem_path_server_sem,
                         _srvr_sem,
-- 
2.43.0


From 571af55da680b7e19fc8284fa2ea9dc6775583c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 18/55] fix: a closed string tensor is not reported as running

---
 EigenIPC/src/StringTensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 0cf3ad0..7fe3be3 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -263,6 +263,8 @@ namespace EigenIPC {
     template <typename ShMemType>
     void StringTensor<ShMemType>::close() {
 
+        _running = false;
+
         _sh_mem.close();
 
     }
-- 
2.43.0


From 714bfbe3c3f825def82a8d560b85b3f3acab2466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 19/55] fix: using a closed producer or consumer raises an
 error instead of blocking

---
 EigenIPC/src/Consumer.cpp | 1 +
 EigenIPC/src/Producer.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..d702f3b 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -86,6 +86,7 @@ namespace EigenIPC {
             _trigger_counter_clnt.close();
             _ack_counter_clnt.close();
 
+            _is_running = false;
             _closed = true;
         }
     }
diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 6a81a8b..c1e2d86 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -93,6 +93,7 @@ namespace EigenIPC {
             _trigger_counter_srvr.close();
             _ack_counter_srvr.close();
 
+            _is_running = false;
             _closed = true;
         }
         
-- 
2.43.0


From f1f5eb85bfc639b90f2808b35c85fa737d2a542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 20/55] fix: reading strings outside of the list does not build
 an invalid block

---
 EigenIPC/src/StringTensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 7fe3be3..c4368c3 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -172,6 +172,7 @@ namespace EigenIPC {
         // ordered evaluation)
 
         return isRunning() &&
+               _fits(vec, col_index) &&
                _sh_mem.read(_buffer.block(0, col_index,
                                                 _n_rows, vec.size()), 0, col_index) && // just update the block
                _decode_vec(vec, col_index);
-- 
2.43.0


From 23670c2b83567c6d4b8ae6de51d46b9b28369d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 21/55] fix: a stopped or closing server neither wipes nor
 hides the one which replaced it

---
 EigenIPC/include/EigenIPC/Server.hpp |  11 +-
 EigenIPC/src/MemUtils.hpp            |  10 ++
 EigenIPC/src/Server.cpp              | 174 ++++++++++++++++++++-------
 3 files changed, 151 insertions(+), 44 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index b5a45bf..74770d3 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -113,6 +113,8 @@ namespace EigenIPC{
 
             bool _running = false;
 
+            bool _name_held = false; // whether the server semaphore is held
+
             bool _init_lock_held = false; // whether the data semaphore acquired
             // upon construction still has to be released
 
@@ -171,6 +173,8 @@ namespace EigenIPC{
             void _initialize();
             void _undoInit();
             void _releaseInitLock();
+            void _releaseName();
+            void _goDown();
 
             void _initDataMem();
             void _initMetaMem();
@@ -196,14 +200,15 @@ namespace EigenIPC{
                                 bool verbose = false);
             void _releaseData();
 
-            void _closeSems();
+            void _closeSems(bool unlink);
 
-            void _cleanMetaMem();
+            void _cleanMetaMem(bool unlink);
             void _cleanMems();
 
             void _checkIsRunning();
 
-            bool _otherServerIsRunning();
+            bool _ownsName();
+            bool _takenOver();
 
     };
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 0990651..af324a1 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -22,6 +22,7 @@
 #include <string>
 #include <stdexcept>
 #include <sys/mman.h>
+#include <sys/stat.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <semaphore.h>
@@ -317,6 +318,15 @@ namespace EigenIPC{
 
         }
 
+        inline bool memUnlinked(int shm_fd) {
+
+            // whether an open memory was unlinked, i.e. nobody will find it anymore
+            struct stat info;
+
+            return shm_fd != -1 && fstat(shm_fd, &info) == 0 && info.st_nlink == 0;
+
+        }
+
         // read/write
 
         template <typename Scalar,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 49b50fc..b7337ea 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -127,7 +127,12 @@ namespace EigenIPC {
 
         _init_lock_held = true; // until the server is run for the first time
 
-        if (!_force_reconnection && _otherServerIsRunning()) {
+        // a running server holds the server semaphore. It is held also here, so that
+        // no other server can start running (or close) while the memory is being recreated
+        _name_held = _acquireSemOneShot(_mem_config.mem_path_server_sem,
+                        _srvr_sem);
+
+        if (!_force_reconnection && !_name_held) {
 
             // do not touch the memory of the running server
 
@@ -160,6 +165,8 @@ namespace EigenIPC {
         // auxiliary data
         _initMetaMem();
 
+        _releaseName(); // until run() is called
+
         _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
@@ -198,9 +205,29 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_releaseName() {
+
+        if (_name_held) {
+
+            _name_held = false;
+
+            MemUtils::releaseSem(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel);
+
+        }
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_undoInit() {
 
+        _releaseName();
+
         _releaseInitLock();
 
         // closing everything which was opened, without unlinking
@@ -265,12 +292,50 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    bool Server<Scalar, Layout>::_otherServerIsRunning()
+    bool Server<Scalar, Layout>::_takenOver()
+    {
+
+        // another server was created with this name after this one was stopped
+        return MemUtils::memUnlinked(_data_shm_fd);
+
+    }
+
+    template <typename Scalar, int Layout>
+    bool Server<Scalar, Layout>::_ownsName()
+    {
+
+        if (_takenOver()) {
+
+            return false;
+
+        }
+
+        if (!_name_held) {
+
+            _name_held = _acquireSemOneShot(_mem_config.mem_path_server_sem,
+                                _srvr_sem);
+
+        }
+
+        return (_name_held || _force_reconnection) && !_takenOver();
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_goDown()
     {
-        int value = 1;
 
-        // a running server holds the server semaphore
-        return sem_getvalue(_srvr_sem, &value) == 0 && value <= 0;
+        if (isRunning()) {
+
+            _running = false;
+
+            if (!_takenOver()) { // otherwise it's the flag of the new server
+
+                _isrunning_view(0, 0) = 0; // for the clients
+
+            }
+
+        }
 
     }
 
@@ -292,11 +357,35 @@ namespace EigenIPC {
 
             }
             
-            _acquireSemTimeout(_mem_config.mem_path_server_sem,
-                        _srvr_sem,
-                        _verbose); // blocking. from this point on, 
-            // other servers trying to transition to running state will fail
-            // due to the sever semaphore being acquired
+            bool taken_over = _takenOver();
+
+            if (!taken_over) {
+
+                _acquireSemTimeout(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _verbose); // blocking. from this point on, 
+                // other servers trying to transition to running state will fail
+                // due to the sever semaphore being acquired
+
+                _name_held = true;
+
+                taken_over = _takenOver();
+
+            }
+
+            if (taken_over) { // nobody would find this server
+
+                _releaseName();
+
+                std::string error = std::string("Server at ") + _mem_config.mem_path +
+                        std::string(" was replaced by another one and cannot be run again.");
+
+                _journal.log(__FUNCTION__,
+                    error,
+                    LogType::EXCEP,
+                    true); // throw exception
+
+            }
 
             if (_init_lock_held) { // only the first time: the data semaphore was
                 // acquired upon construction
@@ -333,19 +422,9 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::stop()
     {
 
-        if (isRunning()) {
-            
-            _running = false;
-            _isrunning_view(0, 0) = 0; // for the clients
-
-            MemUtils::releaseSem(_mem_config.mem_path_server_sem,
-                                _srvr_sem,
-                                _journal,
-                                _return_code,
-                                _verbose,
-                                _vlevel);
+        _goDown();
 
-        }
+        _releaseName();
 
     }
 
@@ -377,9 +456,8 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::close()
     {
 
-        stop(); // stop server if running
-
-        _releaseInitLock(); // if it was never run
+        _goDown(); // stop server if running. The server semaphore is not
+        // released, so that no other server can be created while cleaning up
 
         _cleanMems(); // cleans up all memory,
         // semaphores included (if necessary)
@@ -784,7 +862,7 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    void Server<Scalar, Layout>::_cleanMetaMem()
+    void Server<Scalar, Layout>::_cleanMetaMem(bool unlink)
     {
         // closing file descriptors and also unlinking
         // memory
@@ -798,7 +876,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_ncols,
                              _ncols_shm_fd,
@@ -806,7 +884,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_clients_counter,
                              _n_clients_shm_fd,
@@ -814,7 +892,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_dtype,
                              _dtype_shm_fd,
@@ -822,7 +900,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_mem_layout,
                              _mem_layout_shm_fd,
@@ -830,7 +908,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
                              _isrunning_shm_fd,
@@ -851,6 +929,9 @@ namespace EigenIPC {
 
         if (!_terminated) {
 
+            // never unlinking what belongs to another server
+            bool unlink = _unlink_data && _ownsName();
+
             _return_code = _return_code + ReturnCode::RESET;
 
 
@@ -860,14 +941,14 @@ namespace EigenIPC {
                                  _return_code,
                                  _verbose,
                                  _vlevel,
-                                 _unlink_data);
+                                 unlink);
 
             _return_code = _return_code + ReturnCode::RESET;
 
 
-            _cleanMetaMem();
+            _cleanMetaMem(unlink);
 
-            _closeSems(); // closing semaphores
+            _closeSems(unlink); // closing semaphores
 
             if (_verbose &&
                 _vlevel > VLevel::V1) {
@@ -1056,26 +1137,37 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    void Server<Scalar, Layout>::_closeSems()
+    void Server<Scalar, Layout>::_closeSems(bool unlink)
     {
         // closes semaphores and also unlinks it
         // Other processes who had it open can still use it, but no new
         // process can access it
-        MemUtils::semClose(_mem_config.mem_path_server_sem,
-                           _srvr_sem,
+        _releaseInitLock(); // if it was never run
+
+        MemUtils::semClose(_mem_config.mem_path_data_sem,
+                           _data_sem,
                            _journal,
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           unlink);
 
-        MemUtils::semClose(_mem_config.mem_path_data_sem,
-                           _data_sem,
+        if (!unlink) {
+
+            _releaseName();
+
+        }
+
+        _name_held = false; // if unlinked, never released: who still has it open
+        // cannot use it to run
+
+        MemUtils::semClose(_mem_config.mem_path_server_sem,
+                           _srvr_sem,
                            _journal,
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           unlink);
 
     }
 
-- 
2.43.0


From d10867037d635a57cc361f1fcb5a7c14ac9a7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 22/55] fix: clients of a previous server do not alter the
 clients counter of the new one

---
 EigenIPC/src/Server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index b7337ea..1477ebe 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -162,7 +162,9 @@ namespace EigenIPC {
         // data memory
         _initDataMem();
 
-        // auxiliary data
+        // auxiliary data. The one of a previous server may still be used by its clients
+        _cleanMetaMem(_unlink_data);
+
         _initMetaMem();
 
         _releaseName(); // until run() is called
-- 
2.43.0


From f513a4f8519f019c0024350197ae651464d96bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 23/55] fix: clients neither create nor resize the memory of
 their server

---
 EigenIPC/src/Client.cpp   | 21 ++++++++++++-------
 EigenIPC/src/MemUtils.hpp | 44 +++++++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index cd9fbb7..0e118c9 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -844,7 +844,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false); // never created by clients
 
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
@@ -913,7 +914,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false); // never created by clients
 
         MemUtils::initMem<int>(1,
                         1,
@@ -923,7 +925,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false); // never created by clients
 
         MemUtils::initMem<int>(1,
                         1,
@@ -933,7 +936,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false); // never created by clients
 
         MemUtils::initMem<int>(1,
                         1,
@@ -943,7 +947,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false); // never created by clients
 
         MemUtils::initMem<int>(1,
                         1,
@@ -953,7 +958,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false); // never created by clients
 
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
@@ -986,7 +992,8 @@ namespace EigenIPC {
                           _journal,
                           _return_code,
                           _verbose,
-                          _vlevel);
+                          _vlevel,
+                          false); // never created by clients
 
         if (isin(ReturnCode::SEMOPENFAIL,
                 _return_code)) {
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index af324a1..a173d3e 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -93,6 +93,23 @@ namespace EigenIPC{
 
         // shared mem data utilities
 
+        inline bool memUnlinked(int shm_fd) {
+
+            // whether an open memory was unlinked, i.e. nobody will find it anymore
+            struct stat info;
+
+            return shm_fd != -1 && fstat(shm_fd, &info) == 0 && info.st_nlink == 0;
+
+        }
+
+        inline off_t memSize(int shm_fd) {
+
+            struct stat info;
+
+            return fstat(shm_fd, &info) == 0 ? info.st_size : -1;
+
+        }
+
         template <typename Scalar,
                   int Layout = MemLayoutDefault>
         void initMem(
@@ -104,15 +121,17 @@ namespace EigenIPC{
             Journal& journal,
             ReturnCode& return_code,
             bool verbose = true,
-            VLevel vlevel = Journal::VLevel::V0
+            VLevel vlevel = Journal::VLevel::V0,
+            bool create = true // if false, the memory has to exist
+            // with the right size and is left as it is
             ){
 
             // Determine the size based on the Scalar type
             std::size_t data_size = sizeof(Scalar) * n_rows * n_cols;
 
-            // Create shared memory
+            // Create (or open) shared memory
             shm_fd = shm_open(mem_path.c_str(),
-                              O_CREAT | O_RDWR,
+                              create ? O_CREAT | O_RDWR : O_RDWR,
                               S_IRUSR | S_IWUSR);
 
             if (shm_fd == -1) {
@@ -133,8 +152,9 @@ namespace EigenIPC{
 
             }
 
-            // Set size
-            if (ftruncate(shm_fd, data_size) == -1) {
+            // Set (or check) size
+            if (create ? ftruncate(shm_fd, data_size) == -1 :
+                    memSize(shm_fd) != static_cast<off_t>(data_size)) {
 
                 if (verbose) {
 
@@ -318,15 +338,6 @@ namespace EigenIPC{
 
         }
 
-        inline bool memUnlinked(int shm_fd) {
-
-            // whether an open memory was unlinked, i.e. nobody will find it anymore
-            struct stat info;
-
-            return shm_fd != -1 && fstat(shm_fd, &info) == 0 && info.st_nlink == 0;
-
-        }
-
         // read/write
 
         template <typename Scalar,
@@ -482,10 +493,11 @@ namespace EigenIPC{
                     Journal& journal,
                     ReturnCode& return_code,
                     bool verbose = true,
-                    VLevel vlevel = Journal::VLevel::V0) {
+                    VLevel vlevel = Journal::VLevel::V0,
+                    bool create = true) {
 
             sem = sem_open(sem_path.c_str(),
-                                  O_CREAT, S_IRUSR | S_IWUSR,
+                                  create ? O_CREAT : 0, S_IRUSR | S_IWUSR,
                                   1); // initial val to 1 -> binary semaphore
 
             if (sem == SEM_FAILED) {
-- 
2.43.0


From 67a6204d98d924b078ebd670872c5ef948d465c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 24/55] fix: semaphore acquisition with timeout waits for the
 given timeout

---
 EigenIPC/src/MemUtils.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index a173d3e..2f84d88 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -708,12 +708,25 @@ namespace EigenIPC{
             
             // blocking wait with timeout
 
-            clock_gettime(CLOCK_REALTIME, &timeout);
+            // (sem_timedwait wants an absolute time)
+            struct timespec deadline;
+
+            clock_gettime(CLOCK_REALTIME, &deadline);
+
+            deadline.tv_sec += timeout.tv_sec;
+            deadline.tv_nsec += timeout.tv_nsec;
+
+            if (deadline.tv_nsec >= 1000000000) {
+
+                deadline.tv_sec += 1;
+                deadline.tv_nsec -= 1000000000;
+
+            }
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
             int result = sem_timedwait(sem,
-                                &timeout);
+                                &deadline);
 
             if (result == 0) {
 
-- 
2.43.0


From 567383f7d0cbae20bf59be6cd780d273279bcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 25/55] fix: a client does not mix the memory of two servers
 when its server is replaced

---
 EigenIPC/include/EigenIPC/Client.hpp |  1 +
 EigenIPC/src/Client.cpp              | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 9ee37c5..7a4ad6b 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -189,6 +189,7 @@ namespace EigenIPC{
             // name
 
             void _checkDType();
+            void _checkServerIsThere(); // checks if what was opened is still in use
             void _checkMemLayout(); // checks if mem. layout is
             // consistent with Server
 
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 0e118c9..5d61716 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -166,6 +166,9 @@ namespace EigenIPC {
             // we have now all the info to create the shared tensor
             _initDataMem();
 
+            _checkServerIsThere(); // otherwise what was opened may belong to
+            // different servers
+
         } catch (...) {
 
             _releaseData(); // a refused client must not leave the data locked
@@ -589,6 +592,29 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_checkServerIsThere()
+    {
+        for (int fd : {_data_shm_fd, _nrows_shm_fd, _ncols_shm_fd,
+                        _n_clients_shm_fd, _dtype_shm_fd, _mem_layout_shm_fd}) {
+
+            if (MemUtils::memUnlinked(fd)) {
+
+                std::string error = std::string("Server at ") +
+                        _mem_config.mem_path +
+                        std::string(" was closed while attaching to it.");
+
+                _journal.log(__FUNCTION__,
+                            error,
+                            LogType::EXCEP,
+                            true); // actually raise exception
+
+            }
+
+        }
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_acquireSemTimeout(const std::string& sem_path,
                                     sem_t*& sem,
-- 
2.43.0


From 95bca9fb5a00f41ac9a4357cc31c358558a4565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 26/55] fix: the names of a previous server are all given up
 before new ones are created

---
 EigenIPC/src/Server.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 1477ebe..a865f8d 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -157,14 +157,15 @@ namespace EigenIPC {
                             _unlink_data); // checks if memory was already allocated
         // if yes, cleans it up
 
+        // the auxiliary data of a previous server may still be used by its clients
+        _cleanMetaMem(_unlink_data);
+
         _return_code = _return_code + ReturnCode::RESET;
 
         // data memory
         _initDataMem();
 
-        // auxiliary data. The one of a previous server may still be used by its clients
-        _cleanMetaMem(_unlink_data);
-
+        // auxiliary data
         _initMetaMem();
 
         _releaseName(); // until run() is called
-- 
2.43.0


From d8abd59c4df62a3cd7ba50aae33284014f8cc738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 27/55] fix: a producer which finds more acknowledgements than
 it waits for does not block forever

---
 EigenIPC/src/Producer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index c1e2d86..987ec78 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -204,7 +204,7 @@ namespace EigenIPC {
                 true); // throw exception
         }
 
-        if ((_ack_counter(0, 0) - _acks_before) == n_consumers) {
+        if ((_ack_counter(0, 0) - _acks_before) >= n_consumers) {
             
             _acks_before = _ack_counter(0, 0);
             
-- 
2.43.0


From db651fbf1bcbd662f8c44fb11856c55040aa7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:41 +0000
Subject: [PATCH 28/55] fix: a producer whose start failed can be started again

---
 EigenIPC/src/CondVar.cpp  | 26 ++++++++++++++++++++++----
 EigenIPC/src/Producer.cpp | 28 +++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index f8ccdbe..aa038a7 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -60,14 +60,32 @@ namespace EigenIPC {
                 }
             }
 
-            _cond_ptr = std::make_unique<NamedCondition>(
-                            boost::interprocess::create_only, 
-                            _mem_config.mem_path_cond_var.c_str());
-                            
+            // whoever creates the mutex owns both names
             _mutex_ptr = std::make_unique<NamedMutex>(
                                 boost::interprocess::create_only,
                                 _mem_config.mem_path_cond_var_mutex.c_str());
 
+            try {
+
+                _cond_ptr = std::make_unique<NamedCondition>(
+                                boost::interprocess::create_only, 
+                                _mem_config.mem_path_cond_var.c_str());
+
+            } catch (const boost::interprocess::interprocess_exception& e) {
+
+                // the destructor won't be called: giving back what was created
+                NamedMutex::remove(_mem_config.mem_path_cond_var_mutex.c_str());
+
+                if (e.get_error_code() != boost::interprocess::already_exists_error) {
+
+                    NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
+
+                }
+
+                throw;
+
+            }
+
         } else {
 
             _cond_ptr = std::make_unique<NamedCondition>(
diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 987ec78..cd31f6a 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -62,7 +62,11 @@ namespace EigenIPC {
 
         if (!_is_running) {
 
-            _create_cond_vars(); // we first create the condition variables
+            if (!_ack_cond_ptr) { // unless a previous attempt created them already
+
+                _create_cond_vars(); // we first create the condition variables
+
+            }
 
             _trigger_counter_srvr.run();
             _ack_counter_srvr.run();
@@ -151,12 +155,22 @@ namespace EigenIPC {
                             _vlevel,
                             _force_reconnection);
 
-        _ack_cond_ptr = std::make_unique<ConditionVariable>(is_server,
-                _basename + ACK_COND_NAME,
-                _namespace,
-                _verbose,
-                _vlevel,
-                _force_reconnection);
+        try {
+
+            _ack_cond_ptr = std::make_unique<ConditionVariable>(is_server,
+                    _basename + ACK_COND_NAME,
+                    _namespace,
+                    _verbose,
+                    _vlevel,
+                    _force_reconnection);
+
+        } catch (...) {
+
+            _trigger_cond_ptr.reset(); // so that they can be created again
+
+            throw;
+
+        }
 
     }
 
-- 
2.43.0


From 5ac69b28c9e163264af8c759f162e6a13a5afa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 29/55] fix: wait_and_ack() does not report success when the
 action of the caller failed

---
 EigenIPC/src/Consumer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index d702f3b..b861af3 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -121,28 +121,28 @@ namespace EigenIPC {
     bool Consumer::wait_and_ack(std::function<bool()> pre_ack,
                     int ms_timeout) {
 
-        _fail_count = 0;
+        int fail_count = 0; // _fail_count is reset by ack()
         
         if (!wait(ms_timeout)) {
 
-            _fail_count += 1;
+            fail_count += 1;
 
         } else {
 
             if (!pre_ack()) {
 
-                _fail_count += 1;
+                fail_count += 1;
             }
 
             if (!ack()) { 
 
-                _fail_count += 1;
+                fail_count += 1;
 
             }
 
         } 
 
-        return _fail_count == 0;
+        return fail_count == 0;
     }
 
     bool Consumer::ack() {
-- 
2.43.0


From 53a967d500777ed5374db44e89de60588449916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 30/55] fix: arrays whose strides are not multiples of the
 element size are refused

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp |  4 +--
 .../PyEigenIPC/src/PyEigenIPCUtils.hpp        | 26 +++++++++++++++----
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp |  4 +--
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 1363e69..60a1ad7 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -39,7 +39,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // Ensure the numpy array is mutable and get a pointer to its data
             pybind11::buffer_info buf_info = arr.request();
 
-            if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
+            if (PyEigenIPC::Utils::CheckInputBuffer<Scalar, Layout>(buf_info)) { // check if buffer is OK
 
                 // we first create a lightweight TensorView of the buffer memory
                 Scalar* start_ptr = static_cast<Scalar*>(buf_info.ptr);
@@ -71,7 +71,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // Ensure the numpy array is mutable and get a pointer to its data
             pybind11::buffer_info buf_info = arr.request();
 
-            if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
+            if (PyEigenIPC::Utils::CheckInputBuffer<Scalar, Layout>(buf_info)) { // check if buffer is OK
 
                 // we first create a lightweight TensorView of the buffer memory
                 Scalar* start_ptr = static_cast<Scalar*>(buf_info.ptr);
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..c129353 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -32,7 +32,7 @@ namespace PyEigenIPC {
         using VLevel = EigenIPC::Journal::VLevel;
         using LogType = EigenIPC::Journal::LogType;
 
-        template<int Layout>
+        template<typename Scalar, int Layout>
         bool CheckInputBuffer(pybind11::buffer_info& buf_info){
 
             if (buf_info.ndim != 2) {
@@ -50,6 +50,20 @@ namespace PyEigenIPC {
 
             } // we restrict ourselves to work with only 2D tensors
 
+            if (buf_info.strides[0] % static_cast<pybind11::ssize_t>(sizeof(Scalar)) != 0 ||
+                    buf_info.strides[1] % static_cast<pybind11::ssize_t>(sizeof(Scalar)) != 0) {
+
+                // e.g. a field of a structured array -> elements cannot be
+                // addressed with strides counted in elements
+
+                EigenIPC::Journal::log("PyEigenIPC::Utils",
+                            "CheckInputBuffer",
+                            "Strides of the provided array are not multiples of the size of its elements.",
+                            LogType::EXCEP);
+
+                return false;
+
+            }
 
             if ((Layout == EigenIPC::RowMajor) &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
@@ -109,11 +123,13 @@ namespace PyEigenIPC {
             // rows of a row-major matrix or between two consecutive columns of
             // a column-major matrix
 
+            const pybind11::ssize_t itemsize = sizeof(Scalar); // signed, as strides can be negative
+
             if (Layout == EigenIPC::RowMajor) {
 
                 EigenIPC::DStrides strides = EigenIPC::DStrides(
-                                                    buf_info.strides[0] / sizeof(Scalar),
-                                                    buf_info.strides[1] / sizeof(Scalar)
+                                                    buf_info.strides[0] / itemsize,
+                                                    buf_info.strides[1] / itemsize
                                                 );
 
                 return strides;
@@ -121,8 +137,8 @@ namespace PyEigenIPC {
             } else { // ColMajor
 
                 EigenIPC::DStrides strides = EigenIPC::DStrides(
-                                                    buf_info.strides[1] / sizeof(Scalar),
-                                                    buf_info.strides[0] / sizeof(Scalar)
+                                                    buf_info.strides[1] / itemsize,
+                                                    buf_info.strides[0] / itemsize
                                                 );
 
                 return strides;
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 1444532..b7fe982 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -38,7 +38,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // Ensure the numpy array is mutable and get a pointer to its data
             pybind11::buffer_info buf_info = arr.request();
 
-            if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
+            if (PyEigenIPC::Utils::CheckInputBuffer<Scalar, Layout>(buf_info)) { // check if buffer is OK
 
                 // we first create a lightweight TensorView of the buffer memory
                 Scalar* start_ptr = static_cast<Scalar*>(buf_info.ptr);
@@ -70,7 +70,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // Ensure the numpy array is mutable and get a pointer to its data
             pybind11::buffer_info buf_info = arr.request();
 
-            if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
+            if (PyEigenIPC::Utils::CheckInputBuffer<Scalar, Layout>(buf_info)) { // check if buffer is OK
 
                 // we first create a lightweight TensorView of the buffer memory
                 Scalar* start_ptr = static_cast<Scalar*>(buf_info.ptr);
-- 
2.43.0


From 47ace78d282539082905de42b4561310a80c748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 31/55] fix: reading into a read-only array raises an error
 instead of altering it

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 2 +-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 60a1ad7..81b1e46 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -69,7 +69,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true); // raises if the array is read-only
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Scalar, Layout>(buf_info)) { // check if buffer is OK
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index b7fe982..d66e2a9 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -68,7 +68,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true); // raises if the array is read-only
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Scalar, Layout>(buf_info)) { // check if buffer is OK
 
-- 
2.43.0


From e05621e7b58148f29439bbe7cda020cf55ef0d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 32/55] fix: the typed Python servers and clients refuse arrays
 which would have to be converted

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 4 ++--
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 81b1e46..f473102 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -58,7 +58,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg("data").noconvert(), pybind11::arg("row"), pybind11::arg("col"))
 
         .def("read", [](EigenIPC::Client<Scalar, Layout>& self,
                        PyEigenIPC::NumpyArray<Scalar>& arr,
@@ -90,7 +90,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg("data").noconvert(), pybind11::arg("row"), pybind11::arg("col"))
 
         .def("attach", &EigenIPC::Client<Scalar, Layout>::attach)
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index d66e2a9..e18261e 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -57,7 +57,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg("data").noconvert(), pybind11::arg("row"), pybind11::arg("col"))
 
         .def("read", [](EigenIPC::Server<Scalar, Layout>& self,
                        PyEigenIPC::NumpyArray<Scalar>& arr,
@@ -89,7 +89,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg("data").noconvert(), pybind11::arg("row"), pybind11::arg("col"))
 
         .def("run", &EigenIPC::Server<Scalar, Layout>::run)
 
-- 
2.43.0


From cc35342037696226dee3ae9ed3e220af84ad99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 33/55] fix: strings can be read through a Python string tensor
 server

---
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..dde35ce 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
-- 
2.43.0


From a5670709089afae5759b0435014ebd9c0895a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 34/55] fix: get_shared_mem() of a Python string tensor does
 not return a copy which closes the memory

---
 .../bindings/PyEigenIPC/src/PyStringTensor.cpp   | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index dde35ce..1ffa691 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -122,13 +122,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) -> EigenIPC::StrServer& {
             
-            EigenIPC::StrServer str_server = self.getSharedMem();
+            return self.getSharedMem(); // not a copy: it would close the memory when destroyed
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 
@@ -226,13 +224,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) -> EigenIPC::StrClient& {
             
-            EigenIPC::StrClient str_server = self.getSharedMem();
+            return self.getSharedMem(); // not a copy: it would close the memory when destroyed
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 }
-- 
2.43.0


From 852b2f7d4406336c74a7a7c085ba83c8692295ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 35/55] fix: SharedTWrapper.read() into an array works without
 a torch view

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 7e7928180ce41d3ededc8a1cfdaac284a4c0fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 36/55] fix: SharedTWrapper refuses negative indices, which
 addressed the mirror from its end

---
 .../PyEigenIPC/wrappers/shared_data_view.py   | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 88417cb..b389bee 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -107,7 +107,26 @@ class SharedTWrapper:
         end_col_index = col_index + data1.shape[1]
 
         # Check if data1 fits within the bounds of data2
-        return end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
+        return row_index >= 0 and col_index >= 0 and \
+            end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
+
+    def _check_element(self,
+                row_index: int,
+                col_index: int,
+                method: str):
+
+        # negative indices would address the mirror from its end,
+        # but not the shared memory
+
+        if not (0 <= row_index < self._numpy_view.shape[0] and \
+                0 <= col_index < self._numpy_view.shape[1]):
+
+            message = f"Element ({row_index}, {col_index}) is out of range!!"
+            Logger.log(self.__class__.__name__,
+                method,
+                message,
+                LogType.EXCEP,
+                throw_when_excep = True)
 
     def _init_gpu_mirror(self):
         
@@ -197,6 +216,7 @@ class SharedTWrapper:
         if isinstance(data, (int, float, bool,
                             np.float32, np.float64)):  
             
+            self._check_element(row_index, col_index, "write")
             # write scalar into numpy view
             self._numpy_view[row_index, col_index] = data
             # write to shared memory
@@ -257,6 +277,7 @@ class SharedTWrapper:
             data = None):
             
         if data is None:
+            self._check_element(row_index, col_index, "read")
             # we return a scalar reading of the underlying shared memory
             success = self._shared_mem.read(self._numpy_view[row_index:row_index + 1, 
                 col_index:col_index + 1], row_index, col_index)
@@ -338,7 +359,8 @@ class SharedTWrapper:
         end_col_index = col_index + n_cols
 
         # Check if we are withing bounds
-        fits = (end_row_index <= self._numpy_view.shape[0] \
+        fits = (row_index >= 0 and col_index >= 0 and n_rows >= 0 and n_cols >= 0 \
+            and end_row_index <= self._numpy_view.shape[0] \
             and end_col_index <= self._numpy_view.shape[1])
         if not fits:
             return False
-- 
2.43.0


From 09f134f53a9d519607448c34335b835f19e21a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 37/55] fix: SharedTWrapper.synch_retry() returns when it can
 never succeed

---
 .../PyEigenIPC/wrappers/shared_data_view.py   | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index b389bee..2312659 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -344,6 +344,16 @@ class SharedTWrapper:
             else:
                 continue
 
+    def _block_fits(self,
+        row_index: int, 
+        col_index: int, 
+        n_rows: int,
+        n_cols: int):
+
+        return row_index >= 0 and col_index >= 0 and n_rows >= 0 and n_cols >= 0 \
+            and row_index + n_rows <= self._numpy_view.shape[0] \
+            and col_index + n_cols <= self._numpy_view.shape[1]
+
     def synch(self, 
         row_index: int, 
         col_index: int, 
@@ -354,15 +364,8 @@ class SharedTWrapper:
         # synchs a block of the internal views from shared memory
         # or vice-versa
         
-        # Calculate ending indices
-        end_row_index = row_index + n_rows
-        end_col_index = col_index + n_cols
-
         # Check if we are withing bounds
-        fits = (row_index >= 0 and col_index >= 0 and n_rows >= 0 and n_cols >= 0 \
-            and end_row_index <= self._numpy_view.shape[0] \
-            and end_col_index <= self._numpy_view.shape[1])
-        if not fits:
+        if not self._block_fits(row_index, col_index, n_rows, n_cols):
             return False
         
         if read:
@@ -389,7 +392,12 @@ class SharedTWrapper:
                         n_rows=n_rows,
                         n_cols=n_cols,
                         read=read):
-            continue
+            
+            if not self._shared_mem.isRunning() or \
+                    not self._block_fits(row_index, col_index, n_rows, n_cols):
+                return False # it would never succeed
+            
+        return True
         
     def synch_all(self, 
             read: bool = True, 
@@ -398,10 +406,9 @@ class SharedTWrapper:
         # synch whole view from shared memory
         if retry:
 
-            self.synch_retry(row_index=0, col_index=0, 
+            return self.synch_retry(row_index=0, col_index=0, 
                         n_rows=self.n_rows, n_cols=self.n_cols, 
                         read=read)
-            return True
 
         else:
             
-- 
2.43.0


From 145300d3b69900bc713bf27963db6a05ee3bec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 38/55] fix: a client of a shared tensor dictionary does not
 read names and dimensions before they are written

---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 74c42be..d6614b5 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -54,11 +54,12 @@ class SharedTensorDict():
             
             if self.is_server:
                 
-                jnt_names_written = self.shared_names.write_vec(self.names, 0)
+                # (fails as long as a client is reading)
+                while not self.shared_names.write_vec(self.names, 0):
 
-                if not jnt_names_written:
+                    if not self.shared_names.isRunning():
 
-                    raise Exception("Could not write joint names on shared memory!")
+                        raise Exception("Could not write joint names on shared memory!")
             
             else:
                 
@@ -131,6 +132,12 @@ class SharedTensorDict():
 
                 # updates shared dims
                 self.synch_all(read=True, retry=True)
+
+                while self.get_shared_mem().isRunning() and \
+                        not (self.get_numpy_mirror() > 0).any():
+                    
+                    # not written by the server yet
+                    self.synch_all(read=True, retry=True)
                 
                 self.dims = self.get_numpy_mirror()[:, :].copy()
 
@@ -222,11 +229,17 @@ class SharedTensorDict():
         
         self.data.run()
 
-        self.shared_names.run()
+        if self.is_server:
+
+            self.shared_names.run()
+
+            self.shared_dims.run() # last: tells clients that everything is in place
+
+        else:
 
-        self.shared_dims.run()
+            self.shared_dims.run() # waits for the server
 
-        if not self.is_server:
+            self.shared_names.run()
 
             self.names = self.shared_names.names
             
-- 
2.43.0


From af2511e1df849c1b097ddb30113bde79156e64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 39/55] fix: a write to a shared tensor dictionary does not
 spill over into the next name

---
 .../bindings/PyEigenIPC/wrappers/shared_tensor_dict.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index d6614b5..98f1ef7 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -271,6 +271,16 @@ class SharedTensorDict():
 
         data_2D = np.atleast_2d(data)
 
+        if data_2D.shape[0] > self.dimensions[data_idx]:
+
+            # would overwrite the data of the next name
+
+            Journal.log(self.__class__.__name__,
+                "write",
+                f"Data for {name} has {data_2D.shape[0]} rows, but only {self.dimensions[data_idx]} are available!",
+                LogType.EXCEP,
+                throw_when_excep = True)
+
         if retry: 
 
             self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-- 
2.43.0


From a8290b9528513d7f3b72525176b1d5d506ca7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 40/55] fix: a write to a closed shared tensor dictionary is
 not reported as done

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 8 ++++++--
 .../bindings/PyEigenIPC/wrappers/shared_tensor_dict.py    | 4 +---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 2312659..b110108 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -265,11 +265,15 @@ class SharedTWrapper:
             col_index: int):
 
         # tries writing until success
-        while self._shared_mem.isRunning() and not self.write(data=data,
+        while self._shared_mem.isRunning():
+            
+            if self.write(data=data,
                     row_index=row_index,
                     col_index=col_index):
+
+                return True
             
-            continue
+        return False
 
     def read(self, 
             row_index: int, 
diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 98f1ef7..cf1ffb4 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -283,9 +283,7 @@ class SharedTensorDict():
 
         if retry: 
 
-            self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-            
-            return True
+            return self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
         
         else:
 
-- 
2.43.0


From 0befa551f687e6d9c33d4c0fba1e0153a42e9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 41/55] fix: FromRos.run() can be called again when already
 running

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0ac21b3..8869849 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -182,7 +182,7 @@ class FromRos():
 
                 self._is_running = True # ready
         
-        return sub_success and self._is_running
+        return self._is_running
 
     def close(self):
 
-- 
2.43.0


From daef93ee3f2e85d0cd982291745b9e9fb3c84f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 42/55] fix: ToRos.run() attaches a client which is not running

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index aeebeda..ac51d17 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -226,7 +226,13 @@ class ToRos():
                         
             # manually run client if not running
 
-            self._client.run()
+            if self._is_string_tensor:
+
+                self._client.run()
+
+            else:
+
+                self._client.attach()
         
         self._init_publisher()
     
-- 
2.43.0


From e866452183f098f4917c141773c163c593cfd987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 43/55] fix: ToRos reports the success of reading a string
 tensor once

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index ac51d17..7bd5f86 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -122,6 +122,8 @@ class ToRos():
                 else:
 
                     self._publisher.np_data[:, :] = self._client.get_raw_buffer()
+
+                    return True
             
     def _init_publisher(self):
 
-- 
2.43.0


From cf90c59ff06d4f3839d5028cd83ad1d721dc2712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 44/55] fix: data received from ROS is not altered while it is
 written to shared memory

---
 .../PyEigenIPC/extensions/ros_bridge/abstractions.py      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
index 00dd098..bb542dd 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
@@ -489,11 +489,13 @@ class RosSubscriber(ABC):
     def _data_callback(self,
                     msg):
         
-        self._writing_data = True
+        # a new array, since the previous one may be in use in another thread
+
+        np_data = np.array(msg.data, dtype=self._dtype).reshape((self._n_rows, self._n_cols))
 
-        # write data (also updated numpy view)
+        self._writing_data = True
 
-        self.np_data[:, :] = np.array(msg.data).reshape((self._n_rows, self._n_cols))
+        self.np_data = np_data
 
         # "release" data 
         self._writing_data = False
-- 
2.43.0


From 1fea2b30426c8582baa59a7ae862dd1a0f346461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 45/55] fix: a single row can be exchanged with a ColMajor
 tensor from Python

---
 EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index c129353..7ff46e8 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -65,7 +65,11 @@ namespace PyEigenIPC {
 
             }
 
-            if ((Layout == EigenIPC::RowMajor) &&
+            // the order of the elements of a single row or column is the same in
+            // any layout (and numpy reports arbitrary strides for it)
+            const bool is_vector = buf_info.shape[0] <= 1 || buf_info.shape[1] <= 1;
+
+            if ((Layout == EigenIPC::RowMajor) && !is_vector &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
@@ -86,7 +90,7 @@ namespace PyEigenIPC {
                 return false;
             }
 
-            if ((Layout == EigenIPC::ColMajor) &&
+            if ((Layout == EigenIPC::ColMajor) && !is_vector &&
                     (buf_info.strides[0] > buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
-- 
2.43.0


From eb0f20153c75b7819f77857157ad9e84dc9e1146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 46/55] fix: Python calls that wait for a peer let the other
 threads of the process go on

They were made with the interpreter's lock held: a thread of the same process that was going to
start the server, to release the data, to trigger or to acknowledge never got to do so.
---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp       | 11 +++++++----
 EigenIPC/bindings/PyEigenIPC/src/PyConsumer.cpp     |  9 ++++++---
 EigenIPC/bindings/PyEigenIPC/src/PyProducer.cpp     |  3 ++-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp       |  5 +++--
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp |  6 ++++--
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index f473102..e2c2374 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -92,11 +92,14 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
 
         }, pybind11::arg("data").noconvert(), pybind11::arg("row"), pybind11::arg("col"))
 
-        .def("attach", &EigenIPC::Client<Scalar, Layout>::attach)
+        .def("attach", &EigenIPC::Client<Scalar, Layout>::attach,
+            pybind11::call_guard<pybind11::gil_scoped_release>()) // other threads go on while waiting
 
-        .def("detach", &EigenIPC::Client<Scalar, Layout>::detach)
+        .def("detach", &EigenIPC::Client<Scalar, Layout>::detach,
+            pybind11::call_guard<pybind11::gil_scoped_release>()) // other threads go on while waiting
 
-        .def("close", &EigenIPC::Client<Scalar, Layout>::close)
+        .def("close", &EigenIPC::Client<Scalar, Layout>::close,
+            pybind11::call_guard<pybind11::gil_scoped_release>()) // other threads go on while waiting
 
         .def("isRunning", &EigenIPC::Client<Scalar, Layout>::isAttached)
 
@@ -114,7 +117,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             
             self.dataSemAcquire();
 
-        })
+        }, pybind11::call_guard<pybind11::gil_scoped_release>())
 
         .def("dataSemRelease", &EigenIPC::Client<Scalar, Layout>::dataSemRelease);
 }
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyConsumer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyConsumer.cpp
index 0e43ae3..80f1650 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyConsumer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyConsumer.cpp
@@ -9,14 +9,17 @@ void PyEigenIPC::PyConsumer::bind_Consumer(pybind11::module& m) {
              pybind11::arg("namespace"),
              pybind11::arg("verbose"), 
              pybind11::arg("vlevel") = VLevel::V0);
-        cls.def("run", &EigenIPC::Consumer::run);
-        cls.def("close", &EigenIPC::Consumer::close);
+        cls.def("run", &EigenIPC::Consumer::run,
+            pybind11::call_guard<pybind11::gil_scoped_release>()); // other threads go on while waiting
+        cls.def("close", &EigenIPC::Consumer::close,
+            pybind11::call_guard<pybind11::gil_scoped_release>());
         cls.def("wait", [](EigenIPC::Consumer& self, 
                         int ms_timeout) {
             
             return self.wait(ms_timeout);
 
-        }, pybind11::arg("ms_timeout") = -1);
+        }, pybind11::arg("ms_timeout") = -1,
+            pybind11::call_guard<pybind11::gil_scoped_release>());
         cls.def("ack", &EigenIPC::Consumer::ack);
 
 }
\ No newline at end of file
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyProducer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyProducer.cpp
index e52df21..3e9aad7 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyProducer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyProducer.cpp
@@ -20,6 +20,7 @@ void PyEigenIPC::PyProducer::bind_Producer(pybind11::module& m) {
             
             return self.wait_ack_from(n_consumers, ms_timeout);
 
-        }, pybind11::arg("n_consumers"), pybind11::arg("ms_timeout") = -1);
+        }, pybind11::arg("n_consumers"), pybind11::arg("ms_timeout") = -1,
+            pybind11::call_guard<pybind11::gil_scoped_release>()); // other threads go on while waiting
 
 }
\ No newline at end of file
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index e18261e..95de650 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -101,7 +101,8 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
 
         .def("getScalarType", &EigenIPC::Server<Scalar, Layout>::getScalarType)
 
-        .def("getNClients", &EigenIPC::Server<Scalar, Layout>::getNClients)
+        .def("getNClients", &EigenIPC::Server<Scalar, Layout>::getNClients,
+            pybind11::call_guard<pybind11::gil_scoped_release>()) // other threads go on while waiting
 
         .def("getNRows", &EigenIPC::Server<Scalar, Layout>::getNRows)
 
@@ -115,7 +116,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             
             self.dataSemAcquire();
 
-        })
+        }, pybind11::call_guard<pybind11::gil_scoped_release>())
 
         .def("dataSemRelease", &EigenIPC::Server<Scalar, Layout>::dataSemRelease);
 }
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 1ffa691..5e801a4 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -145,7 +145,8 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
              py::arg("vlevel") = VLevel::V0,
              py::arg("safe") = true)
 
-        .def("run", &StringTensor<StrClient>::run)
+        .def("run", &StringTensor<StrClient>::run,
+            py::call_guard<py::gil_scoped_release>()) // other threads go on while waiting
 
         // Add other method bindings here ...
         .def("isRunning", &StringTensor<StrClient>::isRunning)
@@ -156,7 +157,8 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
 
         .def("getBasename", &StringTensor<StrClient>::getBasename)
 
-        .def("close", &StringTensor<StrClient>::close)
+        .def("close", &StringTensor<StrClient>::close,
+            py::call_guard<py::gil_scoped_release>()) // other threads go on while waiting
 
         .def("write_vec",
             (bool (StringTensor<StrClient>::*)(const std::vector<std::string>&, int))
-- 
2.43.0


From d336c91abf3e42fcda66ebe84a8ea23bdc6ab7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 47/55] fix: FromRos can be closed before it runs, and does not
 update a closed server

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 8869849..0049d5d 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -186,7 +186,11 @@ class FromRos():
 
     def close(self):
 
-        self._server.close()
+        self._is_running = False
+
+        if self._server is not None: # only there once running
+
+            self._server.close()
 
     def update(self):
         
-- 
2.43.0


From 6a2f0d1239c3491f3171b106e40f1cef4898a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 48/55] fix: ConditionVariable's timed waits by two threads mix
 up their time-outs

---
 EigenIPC/include/EigenIPC/CondVar.hpp |  2 --
 EigenIPC/src/CondVar.cpp              | 10 ++++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/CondVar.hpp b/EigenIPC/include/EigenIPC/CondVar.hpp
index 2453a2c..e599bb4 100644
--- a/EigenIPC/include/EigenIPC/CondVar.hpp
+++ b/EigenIPC/include/EigenIPC/CondVar.hpp
@@ -112,8 +112,6 @@ namespace EigenIPC{
             std::unique_ptr<NamedCondition> _cond_ptr;
             std::unique_ptr<NamedMutex> _mutex_ptr;
 
-            boost::posix_time::ptime _utc_timeout;
-            
             ScopedLock _lock;
 
             bool _cleanup_mem();
diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index aa038a7..6147177 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -159,11 +159,12 @@ namespace EigenIPC {
     bool ConditionVariable::timedwait(ScopedLock& named_lock,
                     unsigned int ms) {
         
-        _utc_timeout = boost::posix_time::microsec_clock::universal_time() + 
+        // not a member: several threads may wait with the same object
+        boost::posix_time::ptime utc_timeout = boost::posix_time::microsec_clock::universal_time() + 
                 boost::posix_time::millisec(ms);
 
         // acquire mutex
-        return _cond_ptr->timed_wait(named_lock, _utc_timeout);
+        return _cond_ptr->timed_wait(named_lock, utc_timeout);
 
     }
 
@@ -171,11 +172,12 @@ namespace EigenIPC {
                     unsigned int ms,
                     std::function<bool()> pred) {
         
-        _utc_timeout = boost::posix_time::microsec_clock::universal_time() + 
+        // not a member: several threads may wait with the same object
+        boost::posix_time::ptime utc_timeout = boost::posix_time::microsec_clock::universal_time() + 
                 boost::posix_time::millisec(ms);
 
         // acquire mutex
-        return _cond_ptr->timed_wait(named_lock, _utc_timeout, pred);
+        return _cond_ptr->timed_wait(named_lock, utc_timeout, pred);
 
     }
 
-- 
2.43.0


From 21fcf0eef93e9d5022fc96371eb707cc65893853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 49/55] fix: Producer::close() keeps its condition variables,
 and everything before run()

---
 EigenIPC/src/Producer.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index cd31f6a..da6d68c 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -44,7 +44,7 @@ namespace EigenIPC {
             force_reconnection, 
             false),
         _ack_counter(1, 1),
-        _closed(true),
+        _closed(false),
         _basename(basename),
         _namespace(name_space),
         _unique_id(std::string("->")+ basename+std::string("-")+name_space),
@@ -62,6 +62,15 @@ namespace EigenIPC {
 
         if (!_is_running) {
 
+            if (_closed) { // a successor may be using the names
+
+                _journal.log(__FUNCTION__+_unique_id,
+                    "Was closed and cannot be run again.",
+                    LogType::EXCEP,
+                    true); // throw exception
+
+            }
+
             if (!_ack_cond_ptr) { // unless a previous attempt created them already
 
                 _create_cond_vars(); // we first create the condition variables
@@ -74,7 +83,6 @@ namespace EigenIPC {
             _init_counters();
 
             _is_running = true;
-            _closed = false;
 
             _acks_before = 0;
 
@@ -97,6 +105,9 @@ namespace EigenIPC {
             _trigger_counter_srvr.close();
             _ack_counter_srvr.close();
 
+            _trigger_cond_ptr.reset(); // also gives back the names
+            _ack_cond_ptr.reset();
+
             _is_running = false;
             _closed = true;
         }
-- 
2.43.0


From 00880a3e9a2fa75bd714152b10f23479cd8749e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 50/55] fix: Consumer::close() keeps its condition variables,
 and everything after a failed run()

---
 EigenIPC/src/Consumer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index b861af3..408ac8e 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -39,7 +39,7 @@ namespace EigenIPC {
             vlevel,
             false),
         _ack_counter(1, 1),
-        _closed(true),
+        _closed(false),
         _basename(basename),
         _namespace(name_space),
         _unique_id(std::string("->")+ basename+std::string("-")+name_space)
@@ -86,6 +86,9 @@ namespace EigenIPC {
             _trigger_counter_clnt.close();
             _ack_counter_clnt.close();
 
+            _trigger_cond_ptr.reset();
+            _ack_cond_ptr.reset();
+
             _is_running = false;
             _closed = true;
         }
-- 
2.43.0


From 4cd6f35884a65a01453e2e2e81f2c61e2425852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 51/55] fix: closing servers and clients never unmaps their
 memory

---
 EigenIPC/src/Client.cpp   |  9 +++++++++
 EigenIPC/src/MemUtils.hpp | 17 +++++++++++++++++
 EigenIPC/src/Server.cpp   | 17 +++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 5d61716..b782b2b 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -763,6 +763,13 @@ namespace EigenIPC {
         _return_code = _return_code + ReturnCode::RESET;
 
 
+        MemUtils::unmapMem(_n_rows_view);
+        MemUtils::unmapMem(_n_cols_view);
+        MemUtils::unmapMem(_n_clients_view);
+        MemUtils::unmapMem(_dtype_view);
+        MemUtils::unmapMem(_isrunning_view);
+        MemUtils::unmapMem(_mem_layout_view);
+
         MemUtils::cleanUpMem(_mem_config.mem_path_nrows,
                              _nrows_shm_fd,
                              _journal,
@@ -824,6 +831,8 @@ namespace EigenIPC {
 
             _return_code = _return_code + ReturnCode::RESET;
 
+            MemUtils::unmapMem(_tensor_view);
+
             MemUtils::cleanUpMem(_mem_config.mem_path,
                                 _data_shm_fd,
                                 _journal,
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 2f84d88..dcc205b 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -229,6 +229,23 @@ namespace EigenIPC{
 
         }
 
+        template <typename Scalar,
+                  int Layout = MemLayoutDefault>
+        void unmapMem(MMap<Scalar, Layout>& tensor_view) {
+
+            // gives back the mapping (for this process only)
+            if (tensor_view.data() != nullptr) {
+
+                munmap(tensor_view.data(), sizeof(Scalar) * tensor_view.size());
+
+                new (&tensor_view) MMap<Scalar, Layout>(nullptr,
+                                               tensor_view.rows(),
+                                               tensor_view.cols());
+
+            }
+
+        }
+
         inline void cleanUpMem(
                         const std::string& mem_path,
                         int& shm_fd,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index a865f8d..056cf31 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -233,6 +233,14 @@ namespace EigenIPC {
 
         _releaseInitLock();
 
+        MemUtils::unmapMem(_tensor_view);
+        MemUtils::unmapMem(_n_rows_view);
+        MemUtils::unmapMem(_n_cols_view);
+        MemUtils::unmapMem(_n_clients_view);
+        MemUtils::unmapMem(_dtype_view);
+        MemUtils::unmapMem(_isrunning_view);
+        MemUtils::unmapMem(_mem_layout_view);
+
         // closing everything which was opened, without unlinking
         // (may be in use by others)
         for (int* fd : {&_data_shm_fd, &_nrows_shm_fd, &_ncols_shm_fd,
@@ -873,6 +881,13 @@ namespace EigenIPC {
         _return_code = _return_code + ReturnCode::RESET;
 
 
+        MemUtils::unmapMem(_n_rows_view);
+        MemUtils::unmapMem(_n_cols_view);
+        MemUtils::unmapMem(_n_clients_view);
+        MemUtils::unmapMem(_dtype_view);
+        MemUtils::unmapMem(_isrunning_view);
+        MemUtils::unmapMem(_mem_layout_view);
+
         MemUtils::cleanUpMem(_mem_config.mem_path_nrows,
                              _nrows_shm_fd,
                              _journal,
@@ -938,6 +953,8 @@ namespace EigenIPC {
             _return_code = _return_code + ReturnCode::RESET;
 
 
+            MemUtils::unmapMem(_tensor_view);
+
             MemUtils::cleanUpMem(_mem_config.mem_path,
                                  _data_shm_fd,
                                  _journal,
-- 
2.43.0


From f5501c7a3f0f02f9c858916d9d70af84cfe271fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 52/55] fix: Ros2Subscriber keeps the subscriptions it makes,
 so closing it ends them

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py
index 77225d3..df2ebf5 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py
@@ -99,6 +99,8 @@ class Ros2Subscriber(RosSubscriber):
                         # raw=False
                         )
 
+        return subscriber
+
     def _close(self):
 
         # called in the close()
-- 
2.43.0


From efcf8ea48dc625636b475a66a663d848910a3760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 53/55] fix: closing ToRos and FromRos gives back their topics;
 ToRos.update() after close() returns False

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 ++
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0049d5d..eb0d037 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -188,6 +188,8 @@ class FromRos():
 
         self._is_running = False
 
+        self._subscriber.close() # and the topics with it
+
         if self._server is not None: # only there once running
 
             self._server.close()
diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index 7bd5f86..807176b 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -240,10 +240,18 @@ class ToRos():
     
     def close(self):
 
+        if self._publisher is not None:
+
+            self._publisher.close() # and the topics with it
+
         self._client.close()
 
     def update(self):
         
+        if not self._client.isRunning():
+
+            return False # closed: there's nothing to be read anymore
+
         success = self._synch_from_shared_mem() # updated publisher np view with shared memory
 
         if self._ros_backend == "ros2":
-- 
2.43.0


From e6e2d0875eac926a214a9d8ac16075de1b935c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 54/55] fix: a thread that waits for the data lock isn't told
 that it failed because another thread of the process was refused with the
 same object

---
 EigenIPC/src/Client.cpp | 27 ++++++++++++---------------
 EigenIPC/src/Server.cpp | 27 ++++++++++++---------------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index b782b2b..0eaef55 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -647,24 +647,23 @@ namespace EigenIPC {
     bool Client<Scalar, Layout>::_acquireSemOneShot(const std::string& sem_path,
                                      sem_t*& sem)
     {
-        _return_code = _return_code + ReturnCode::RESET;
+        ReturnCode return_code = ReturnCode::NONE; // not the member: another
+        // thread may be using this object at the same time
 
         MemUtils::acquireSemOneShot(sem_path,
                         sem,
                         _journal,
-                        _return_code,
+                        return_code,
                         _verbose,
                         VLevel::V0);
 
         if (isin(ReturnCode::SEMACQFAIL,
-                 _return_code)) {
+                 return_code)) {
 
             return false;
 
         }
 
-        _return_code = _return_code + ReturnCode::RESET;
-
         return true;
 
     }
@@ -674,18 +673,18 @@ namespace EigenIPC {
                                     sem_t*& sem,
                                     bool verbose)
     {
-        _return_code = _return_code + ReturnCode::RESET;
+        ReturnCode return_code = ReturnCode::NONE; // see _acquireSemOneShot
 
         MemUtils::acquireSemBlocking(sem_path,
                         sem,
                         _journal,
-                        _return_code,
+                        return_code,
                         verbose,
                         _vlevel);
 
-        if (isin(ReturnCode::SEMACQFAIL, _return_code)) {
+        if (isin(ReturnCode::SEMACQFAIL, return_code)) {
 
-            MemUtils::failWithCode(_return_code,
+            MemUtils::failWithCode(return_code,
                                    _journal,
                                    __FUNCTION__);
 
@@ -698,26 +697,24 @@ namespace EigenIPC {
                                     sem_t*& sem,
                                     bool verbose)
     {
-        _return_code = _return_code + ReturnCode::RESET;
+        ReturnCode return_code = ReturnCode::NONE; // see _acquireSemOneShot
 
 
         MemUtils::releaseSem(sem_path,
                             sem,
                             _journal,
-                            _return_code,
+                            return_code,
                             verbose,
                             _vlevel);
 
-        if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
+        if (isin(ReturnCode::SEMRELFAIL, return_code)) {
 
-            MemUtils::failWithCode(_return_code,
+            MemUtils::failWithCode(return_code,
                                    _journal,
                                    __FUNCTION__);
 
         }
 
-        _return_code = _return_code + ReturnCode::RESET;
-
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 056cf31..e5a92fe 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -764,24 +764,23 @@ namespace EigenIPC {
     bool Server<Scalar, Layout>::_acquireSemOneShot(const std::string& sem_path,
                                      sem_t*& sem)
     {
-        _return_code = _return_code + ReturnCode::RESET;
+        ReturnCode return_code = ReturnCode::NONE; // not the member: another
+        // thread may be using this object at the same time
 
         MemUtils::acquireSemOneShot(sem_path,
                              sem,
                              _journal,
-                             _return_code,
+                             return_code,
                              _verbose,
                              VLevel::V0); // minimal verbosity (if enabled at all)
 
         if (isin(ReturnCode::SEMACQFAIL,
-                 _return_code)) {
+                 return_code)) {
 
             return false;
 
         }
 
-        _return_code = _return_code + ReturnCode::RESET;
-
 
         return true;
 
@@ -792,18 +791,18 @@ namespace EigenIPC {
                                     sem_t*& sem,
                                     bool verbose)
     {
-        _return_code = _return_code + ReturnCode::RESET;
+        ReturnCode return_code = ReturnCode::NONE; // see _acquireSemOneShot
 
         MemUtils::acquireSemBlocking(sem_path,
                         sem,
                         _journal,
-                        _return_code,
+                        return_code,
                         verbose,
                         _vlevel);
 
-        if (isin(ReturnCode::SEMACQFAIL, _return_code)) {
+        if (isin(ReturnCode::SEMACQFAIL, return_code)) {
 
-            MemUtils::failWithCode(_return_code,
+            MemUtils::failWithCode(return_code,
                                    _journal,
                                    __FUNCTION__);
 
@@ -816,26 +815,24 @@ namespace EigenIPC {
                                     sem_t*& sem,
                                     bool verbose)
     {
-        _return_code = _return_code + ReturnCode::RESET;
+        ReturnCode return_code = ReturnCode::NONE; // see _acquireSemOneShot
 
 
         MemUtils::releaseSem(sem_path,
                         sem,
                         _journal,
-                        _return_code,
+                        return_code,
                         verbose, // no verbosity (this is called very frequently)
                         _vlevel);
 
-        if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
+        if (isin(ReturnCode::SEMRELFAIL, return_code)) {
 
-            MemUtils::failWithCode(_return_code,
+            MemUtils::failWithCode(return_code,
                                    _journal,
                                    __FUNCTION__);
 
         }
 
-        _return_code = _return_code + ReturnCode::RESET;
-
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From c1203dfdb2f8a6a49b16253ede9c37680125e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:45 +0000
Subject: [PATCH 55/55] fix: a safe read or write of one thread doesn't go
 ahead without the data lock because another thread of the process, using the
 same object, has just begun one

---
 EigenIPC/include/EigenIPC/Client.hpp | 3 ---
 EigenIPC/include/EigenIPC/Server.hpp | 3 ---
 EigenIPC/src/Client.cpp              | 8 ++++----
 EigenIPC/src/Server.cpp              | 8 ++++----
 4 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 7a4ad6b..3bbe031 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -114,9 +114,6 @@ namespace EigenIPC{
 
             bool _attached = false;
             
-            bool _data_acquired = false; // aux. variable,
-            // preallocated for efficiency
-
             int _n_rows = -1;
             int _n_cols = -1;
 
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 74770d3..0a7d96d 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -120,9 +120,6 @@ namespace EigenIPC{
 
             bool _force_reconnection = false;
 
-            bool _data_acquired = false; // aux. variable,
-            // preallocated for efficiency
-
             int _n_rows = -1;
             int _n_cols = -1;
 
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 0eaef55..e80ec84 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -324,7 +324,7 @@ namespace EigenIPC {
 
         if (_attached) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
@@ -370,7 +370,7 @@ namespace EigenIPC {
 
         if (_attached) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
@@ -414,7 +414,7 @@ namespace EigenIPC {
 
         if (_attached) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
@@ -458,7 +458,7 @@ namespace EigenIPC {
 
         if (_attached) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index e5a92fe..3929c27 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -539,7 +539,7 @@ namespace EigenIPC {
 
         if (_running) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
@@ -584,7 +584,7 @@ namespace EigenIPC {
 
         if (_running) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
@@ -628,7 +628,7 @@ namespace EigenIPC {
 
         if (_running) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
@@ -672,7 +672,7 @@ namespace EigenIPC {
 
         if (_running) {
 
-            _data_acquired = true;
+            bool _data_acquired = true; // this call's (threads may share this object)
 
             if (_safe) {
 
-- 
2.43.0

