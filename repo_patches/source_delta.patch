From f0bf0a5547be253bcbc122beb1ffd98c6df515a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 01/48] fix: close the descriptor opened to check for existing
 memory only once

---
 EigenIPC/src/MemUtils.hpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..4a55eef 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -307,15 +307,6 @@ namespace EigenIPC{
 
                 }
 
-                if (shm_fd != -1) {
-                    // Close the file descriptor opened for checking existence
-
-                    ::close(shm_fd);
-
-                    return_code = return_code + ReturnCode::MEMFDCLOSED;
-
-                }
-
             }
 
         }
-- 
2.43.0


From 58b46ee364d6508f12539c52d77316acffaa94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:22 +0000
Subject: [PATCH 02/48] fix: never close descriptors or semaphores that were
 not opened

---
 EigenIPC/include/EigenIPC/Client.hpp | 16 ++++++++--------
 EigenIPC/include/EigenIPC/Server.hpp | 18 +++++++++---------
 EigenIPC/src/MemUtils.hpp            | 17 ++++++++++++++---
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..bdf1952 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -120,13 +120,13 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1; // -1 -> not opened
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +146,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..b582f5f 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -123,13 +123,13 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1; // -1 -> not opened
 
             static const int _mem_layout = Layout;
 
@@ -144,8 +144,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = nullptr; // semaphore for servers uniqueness
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 4a55eef..49164fe 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -217,8 +217,14 @@ namespace EigenIPC{
                         VLevel vlevel = Journal::VLevel::V0,
                         bool unlink = false) {
 
-            // Closing the file descriptor (for this process only)
-            ::close(shm_fd);
+            // Closing the file descriptor (for this process only),
+            // if it was actually opened
+            if (shm_fd != -1) {
+
+                ::close(shm_fd);
+
+                shm_fd = -1;
+            }
 
             return_code = return_code + ReturnCode::MEMFDCLOSED;
 
@@ -517,7 +523,12 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
-            sem_close(sem); // closes semaphore for the current process
+            if (sem != nullptr && sem != SEM_FAILED) {
+
+                sem_close(sem); // closes semaphore for the current process
+            }
+
+            sem = nullptr; // not usable anymore
 
             return_code = return_code + ReturnCode::SEMCLOSE;
 
-- 
2.43.0


From 6bf976a9237f6edd2f7a5d8b83352402a1909a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:22 +0000
Subject: [PATCH 03/48] fix: close the server's descriptor of the running flag

---
 EigenIPC/src/Server.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..3e63d41 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -705,6 +705,16 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        // the running flag outlives the server (clients might be waiting on it),
+        // so it is closed but not unlinked
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false);
+
         _return_code = _return_code + ReturnCode::RESET;
 
 
-- 
2.43.0


From 357ce67ec0ce8196270d6afee586859abe8fb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 04/48] fix: unmap the shared memory of closed servers and
 clients

---
 EigenIPC/src/Client.cpp   |  8 ++++++++
 EigenIPC/src/MemUtils.hpp | 17 +++++++++++++++++
 EigenIPC/src/Server.cpp   |  8 ++++++++
 3 files changed, 33 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..aef0d4a 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -790,6 +790,14 @@ namespace EigenIPC {
 
             }
 
+            MemUtils::unmapMem(_tensor_view);
+            MemUtils::unmapMem(_n_rows_view);
+            MemUtils::unmapMem(_n_cols_view);
+            MemUtils::unmapMem(_n_clients_view);
+            MemUtils::unmapMem(_dtype_view);
+            MemUtils::unmapMem(_isrunning_view);
+            MemUtils::unmapMem(_mem_layout_view);
+
             _terminated = true;
 
         }
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 49164fe..674e4b6 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -263,6 +263,23 @@ namespace EigenIPC{
 
         }
 
+        template <typename Scalar,
+                  int Layout = MemLayoutDefault>
+        void unmapMem(MMap<Scalar, Layout>& tensor_view) {
+
+            // Removing the mapping (for this process only), if there is one
+            if (tensor_view.data() != nullptr) {
+
+                munmap(tensor_view.data(),
+                    sizeof(Scalar) * tensor_view.size());
+
+                new (&tensor_view) MMap<Scalar, Layout>(nullptr,
+                                            tensor_view.rows(),
+                                            tensor_view.cols());
+            }
+
+        }
+
         inline void checkMem(
                     const std::string& mem_path,
                     int& shm_fd,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 3e63d41..61b7f0c 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -755,6 +755,14 @@ namespace EigenIPC {
 
             }
 
+            MemUtils::unmapMem(_tensor_view);
+            MemUtils::unmapMem(_n_rows_view);
+            MemUtils::unmapMem(_n_cols_view);
+            MemUtils::unmapMem(_n_clients_view);
+            MemUtils::unmapMem(_dtype_view);
+            MemUtils::unmapMem(_isrunning_view);
+            MemUtils::unmapMem(_mem_layout_view);
+
             _terminated = true;
 
         }
-- 
2.43.0


From 2c10bbd1433ffa63188d198f2727b010922ad61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 05/48] fix: getSharedMem returns the string tensor's memory,
 not a copy that destroys it

---
 .../bindings/PyEigenIPC/src/PyStringTensor.cpp | 18 ++++--------------
 EigenIPC/include/EigenIPC/StringTensor.hpp     |  3 ++-
 EigenIPC/src/StringTensor.cpp                  |  4 ++--
 3 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..43d16f5 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -122,13 +122,8 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) {
-            
-            EigenIPC::StrServer str_server = self.getSharedMem();
-
-            return str_server;
-
-        })
+        .def("get_shared_mem", &EigenIPC::StringTensor<EigenIPC::StrServer>::getSharedMem,
+            py::return_value_policy::reference_internal)
 
         ;
 
@@ -226,13 +221,8 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) {
-            
-            EigenIPC::StrClient str_server = self.getSharedMem();
-
-            return str_server;
-
-        })
+        .def("get_shared_mem", &EigenIPC::StringTensor<EigenIPC::StrClient>::getSharedMem,
+            py::return_value_policy::reference_internal)
 
         ;
 }
diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 7bf1d86..f8b1795 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -100,7 +100,8 @@ namespace EigenIPC {
 
             int getLength();
 
-            ShMemType getSharedMem();
+            ShMemType& getSharedMem(); // a reference: a copy would release the
+            // shared resources of the original when destroyed
 
             std::string getNamespace() const;
             std::string getBasename() const;
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..d9e6a6c 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -121,13 +121,13 @@ namespace EigenIPC {
     }
     
     template <>
-    StrServer StringTensor<StrServer>::getSharedMem() {
+    StrServer& StringTensor<StrServer>::getSharedMem() {
 
         return _sh_mem;
     }
 
     template <>
-    StrClient StringTensor<StrClient>::getSharedMem() {
+    StrClient& StringTensor<StrClient>::getSharedMem() {
 
         return _sh_mem;
     }
-- 
2.43.0


From 8a4ea6b4d1d1cfc12d2dee633eb1ce3a878c5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 06/48] fix: bind read_str of the string tensor server to the
 server class

---
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 43d16f5..2367d53 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
-- 
2.43.0


From 87602de11be613f4a543bdfb4fad419219768627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 07/48] fix: restarting a stopped server releases the data
 semaphore only once

---
 EigenIPC/include/EigenIPC/Server.hpp |  3 +++
 EigenIPC/src/Server.cpp              | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index b582f5f..114a307 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -111,6 +111,9 @@ namespace EigenIPC{
             
             bool _terminated = false;
 
+            bool _init_lock_held = false; // whether the data sem. acquired
+            // at construction still has to be released by run()
+
             bool _running = false;
 
             bool _force_reconnection = false;
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 61b7f0c..3ebc97d 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _init_lock_held = true; // released when running for the first time
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -185,9 +187,14 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); // data can now be acquired by clients
+            if (_init_lock_held) {
+
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); // data can now be acquired by clients
+
+                _init_lock_held = false; // (not to be released again after a stop())
+            }
 
             // set the running flag to true
             _running = true;
-- 
2.43.0


From fd2a68877f9ca64fe4a2d45564f1d9b5ccab5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:11 +0000
Subject: [PATCH 08/48] fix: a refused attach gives the data semaphore back and
 is not counted

---
 EigenIPC/src/Client.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index aef0d4a..11ee318 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -128,20 +128,31 @@ namespace EigenIPC {
         // (at this point is actually guaranteed to be free anyway)
         _acquireData(true, true); // blocking
 
-        _checkDType(); // checks data type consistency
+        try {
 
-        _checkMemLayout(); // checks memory layout consistency
+            _checkDType(); // checks data type consistency
 
-        _n_rows = _n_rows_view(0, 0);
-        _n_cols = _n_cols_view(0, 0);
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+            _checkMemLayout(); // checks memory layout consistency
+
+            _n_rows = _n_rows_view(0, 0);
+            _n_cols = _n_cols_view(0, 0);
+
+            // we have now all the info to create the shared tensor
+            _initDataMem();
 
-        // we have now all the info to create the shared tensor
-        _initDataMem();
+            _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
+                                                _n_cols); // used to hold
+            // a copy of the shared tensor data
 
-        _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                            _n_cols); // used to hold
-        // a copy of the shared tensor data
+        } catch (...) {
+
+            // attachment refused: others must still be able to access the tensor
+            _releaseData();
+
+            throw;
+        }
+
+        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
         // releasing data semaphore so that other clients/the server can access the tensor
         _releaseData();
-- 
2.43.0


From 64df6350ce67f3b63b111fc003cb358cb8fbb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 09/48] fix: closing a server also unlinks its data memory

---
 EigenIPC/src/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 3ebc97d..ccb3b9e 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -741,7 +741,8 @@ namespace EigenIPC {
                                  _journal,
                                  _return_code,
                                  _verbose,
-                                 _vlevel);
+                                 _vlevel,
+                                 _unlink_data);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 046b93c97f3cede77df598841df14420f6ba258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 10/48] fix: attach and detach do not log when verbosity is off

---
 EigenIPC/src/Client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 11ee318..722865c 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -126,7 +126,7 @@ namespace EigenIPC {
 
         // acquire shared data semaphore or waits for it
         // (at this point is actually guaranteed to be free anyway)
-        _acquireData(true, true); // blocking
+        _acquireData(true, _verbose); // blocking
 
         try {
 
@@ -189,7 +189,7 @@ namespace EigenIPC {
 
             }
 
-            _acquireData(true, true); // blocking (probably not necessary, 
+            _acquireData(true, _verbose); // blocking (probably not necessary, 
             // int operations should be atomic on 64 bit machines)
 
             _n_clients_view(0, 0) = _n_clients_view(0, 0) - 1; // increase clients counter
-- 
2.43.0


From 9c2efe7679144ac9aed5a9a5f69128db7cf8fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 11/48] fix: a failed acknowledgement is not logged when
 verbosity is off

---
 EigenIPC/src/Consumer.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..08287be 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -160,10 +160,13 @@ namespace EigenIPC {
 
         if (!_ack_counter_clnt.read(_ack_counter, 0, 0)) {
 
-            _journal.log(__FUNCTION__+_unique_id,
-                "Could not read acknowledge counter!",
-                LogType::EXCEP, 
-                false); // throw exception
+            if (_verbose) {
+
+                _journal.log(__FUNCTION__+_unique_id,
+                    "Could not read acknowledge counter!",
+                    LogType::EXCEP, 
+                    false);
+            }
 
             _fail_count += 1;
 
@@ -173,10 +176,13 @@ namespace EigenIPC {
         
         if (!_ack_counter_clnt.write(_ack_counter, 0, 0)) {
 
-            _journal.log(__FUNCTION__+_unique_id,
-                "Could not write acknowledge counter!",
-                LogType::EXCEP, 
-                false); // throw exception
+            if (_verbose) {
+
+                _journal.log(__FUNCTION__+_unique_id,
+                    "Could not write acknowledge counter!",
+                    LogType::EXCEP, 
+                    false);
+            }
 
             _fail_count += 1;
             
-- 
2.43.0


From 5d877ac82584473f1761b140b78739a6ca9d7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 12/48] fix: failures to open semaphores or to set up the data
 memory raise and roll back

---
 EigenIPC/src/Client.cpp   |  47 ++++++++-------
 EigenIPC/src/MemUtils.hpp |   8 +++
 EigenIPC/src/Server.cpp   | 117 +++++++++++++++++++++++---------------
 3 files changed, 107 insertions(+), 65 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 722865c..7d0bf0e 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -821,27 +821,22 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
-            _return_code = _return_code + ReturnCode::RESET;
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
 
-        }
-        else {
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -849,6 +844,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
@@ -941,6 +938,7 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_initSems()
     {
+        _return_code = _return_code + ReturnCode::RESET;
 
         MemUtils::semInit(_mem_config.mem_path_data_sem,
                           _data_sem,
@@ -949,6 +947,15 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL,
+                _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 674e4b6..3ada663 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -865,6 +865,14 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
+                    if (sem == SEM_FAILED) {
+
+                        // could not be recreated
+                        return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                        return;
+                    }
+
                     // recursive call. This will now work
                     acquireSemTimeout(sem_path,
                             sem,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index ccb3b9e..e3cebe6 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -102,36 +102,56 @@ namespace EigenIPC {
         _sem_timeout.tv_sec = 0;
         _sem_timeout.tv_nsec = timeoutInNanoseconds % 1000000000;
 
-        _initSems(); // creates necessary semaphores
+        try {
 
-        _acquireSemTimeout(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); 
+            _initSems(); // creates necessary semaphores
 
-        _init_lock_held = true; // released when running for the first time
+            _acquireSemTimeout(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); 
 
-        _return_code = _return_code + ReturnCode::RESET; // resets to None
+            _init_lock_held = true; // released when running for the first time
 
-        MemUtils::checkMem(_mem_config.mem_path,
-                            _data_shm_fd,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel,
-                            _unlink_data); // checks if memory was already allocated
-        // if yes, cleans it up
+            _return_code = _return_code + ReturnCode::RESET; // resets to None
 
-        _return_code = _return_code + ReturnCode::RESET;
+            MemUtils::checkMem(_mem_config.mem_path,
+                                _data_shm_fd,
+                                _journal,
+                                _return_code,
+                                _verbose,
+                                _vlevel,
+                                _unlink_data); // checks if memory was already allocated
+            // if yes, cleans it up
 
-        // data memory
-        _initDataMem();
+            _return_code = _return_code + ReturnCode::RESET;
+
+            // data memory
+            _initDataMem();
+
+            // auxiliary data
+            _initMetaMem();
 
-        // auxiliary data
-        _initMetaMem();
+            _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
+                                                _n_cols); // used to hold
+            // a copy of the shared tensor data
 
-        _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                            _n_cols); // used to hold
-        // a copy of the shared tensor data
+        } catch (...) {
+
+            // failed to initialize -> giving back what has been acquired so far.
+            // Nothing is unlinked, since memory might be in use by another server
+            if (_init_lock_held) {
+
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose);
+            }
+
+            _unlink_data = false;
+
+            _cleanMems();
+
+            throw;
+        }
 
         _terminated = false; // just in case
 
@@ -881,28 +901,23 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(
-                            _n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
-            _return_code = _return_code + ReturnCode::RESET;
+        MemUtils::initMem<Scalar, Layout>(
+                        _n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
 
-        }
-        else {
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -910,11 +925,14 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initSems()
     {
+        _return_code = _return_code + ReturnCode::RESET;
 
         MemUtils::semInit(_mem_config.mem_path_server_sem,
                           _srvr_sem,
@@ -930,6 +948,15 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL,
+                _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
@@ -944,7 +971,7 @@ namespace EigenIPC {
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           _unlink_data);
 
         MemUtils::semClose(_mem_config.mem_path_data_sem,
                            _data_sem,
@@ -952,7 +979,7 @@ namespace EigenIPC {
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           _unlink_data);
 
     }
 
-- 
2.43.0


From 963fd88089b91e85dca8dc4ed09085650a309adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:38 +0000
Subject: [PATCH 13/48] fix: constructing a second server on a running name
 raises before touching its memory

---
 EigenIPC/include/EigenIPC/Server.hpp |  2 ++
 EigenIPC/src/Server.cpp              | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 114a307..9515222 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -113,6 +113,8 @@ namespace EigenIPC{
 
             bool _init_lock_held = false; // whether the data sem. acquired
             // at construction still has to be released by run()
+            bool _init_srvr_lock_held = false; // whether the server sem. is held
+            // (only while constructing)
 
             bool _running = false;
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index e3cebe6..6a8de5c 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -112,6 +112,18 @@ namespace EigenIPC {
 
             _init_lock_held = true; // released when running for the first time
 
+            if (!_force_reconnection) {
+
+                // keeps other servers from transitioning to running state while
+                // the memory is being initialized. Fails if one is already running,
+                // in which case its memory must not be touched
+                _acquireSemTimeout(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _verbose);
+
+                _init_srvr_lock_held = true;
+            }
+
             _return_code = _return_code + ReturnCode::RESET; // resets to None
 
             MemUtils::checkMem(_mem_config.mem_path,
@@ -135,10 +147,26 @@ namespace EigenIPC {
                                                 _n_cols); // used to hold
             // a copy of the shared tensor data
 
+            if (_init_srvr_lock_held) {
+
+                _releaseSem(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _verbose);
+
+                _init_srvr_lock_held = false;
+            }
+
         } catch (...) {
 
             // failed to initialize -> giving back what has been acquired so far.
             // Nothing is unlinked, since memory might be in use by another server
+            if (_init_srvr_lock_held) {
+
+                _releaseSem(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _verbose);
+            }
+
             if (_init_lock_held) {
 
                 _releaseSem(_mem_config.mem_path_data_sem,
-- 
2.43.0


From 17e4d2199593e0b561a6325f1939192a2cd93516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 14/48] fix: a stopped server whose name was taken over neither
 restarts nor removes the new server's memory

---
 EigenIPC/include/EigenIPC/Server.hpp |  3 +++
 EigenIPC/src/MemUtils.hpp            | 12 ++++++++++
 EigenIPC/src/Server.cpp              | 34 +++++++++++++++++++++++++++-
 3 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9515222..a8309b0 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -199,6 +199,9 @@ namespace EigenIPC{
             void _cleanMetaMem();
             void _cleanMems();
 
+            bool _isSuperseded() const; // whether another server took
+            // over the name
+
             void _checkIsRunning();
 
     };
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 3ada663..fb87891 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -22,6 +22,7 @@
 #include <string>
 #include <stdexcept>
 #include <sys/mman.h>
+#include <sys/stat.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <semaphore.h>
@@ -280,6 +281,17 @@ namespace EigenIPC{
 
         }
 
+        inline bool isUnlinked(int shm_fd) {
+
+            // whether the (open) shared memory was unlinked system-wide
+            struct stat mem_status;
+
+            return shm_fd != -1 &&
+                    fstat(shm_fd, &mem_status) == 0 &&
+                    mem_status.st_nlink == 0;
+
+        }
+
         inline void checkMem(
                     const std::string& mem_path,
                     int& shm_fd,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 6a8de5c..51088a2 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -235,6 +235,19 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
+            if (_isSuperseded()) {
+
+                // cannot be restarted: another server took over after a stop()
+                _releaseSem(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _verbose);
+
+                _journal.log(__FUNCTION__,
+                    std::string("Another server was created at ") + _mem_config.mem_path,
+                    LogType::EXCEP,
+                    true); // throw exception
+            }
+
             if (_init_lock_held) {
 
                 _releaseSem(_mem_config.mem_path_data_sem,
@@ -271,7 +284,11 @@ namespace EigenIPC {
         if (isRunning()) {
             
             _running = false;
-            _isrunning_view(0, 0) = 0; // for the clients
+
+            if (!_isSuperseded()) {
+
+                _isrunning_view(0, 0) = 0; // for the clients
+            }
 
             MemUtils::releaseSem(_mem_config.mem_path_server_sem,
                                 _srvr_sem,
@@ -783,6 +800,11 @@ namespace EigenIPC {
 
             _return_code = _return_code + ReturnCode::RESET;
 
+            if (_isSuperseded()) {
+
+                // everything under this name now belongs to another server
+                _unlink_data = false;
+            }
 
             MemUtils::cleanUpMem(_mem_config.mem_path,
                                  _data_shm_fd,
@@ -825,6 +847,16 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    bool Server<Scalar, Layout>::_isSuperseded() const
+    {
+        // a server which takes over the name unlinks the data memory of
+        // the previous one
+
+        return MemUtils::isUnlinked(_data_shm_fd);
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initMetaMem()
     {
-- 
2.43.0


From c1afd35e291e047cdcf379bf6ff1368b2bdf7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 15/48] fix: clients of a replaced server are not subtracted
 from the new server's count

---
 EigenIPC/src/Client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 7d0bf0e..e857f5a 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -192,7 +192,11 @@ namespace EigenIPC {
             _acquireData(true, _verbose); // blocking (probably not necessary, 
             // int operations should be atomic on 64 bit machines)
 
-            _n_clients_view(0, 0) = _n_clients_view(0, 0) - 1; // increase clients counter
+            if (!MemUtils::isUnlinked(_data_shm_fd)) {
+
+                // (otherwise another server took over and is not counting us)
+                _n_clients_view(0, 0) = _n_clients_view(0, 0) - 1; // decrease clients counter
+            }
 
             // releasing data semaphore so that other clients/the server can access the tensor
             _releaseData();
-- 
2.43.0


From 6ff6c3014754133868ce2c61a6d53faa86dc1282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 16/48] fix: a waiting client opens the tensor's description
 only once the server runs

---
 EigenIPC/include/EigenIPC/Client.hpp |  1 +
 EigenIPC/src/Client.cpp              | 44 +++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index bdf1952..48ab623 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -193,6 +193,7 @@ namespace EigenIPC{
             // consistent with Server
 
             void _initDataMem();
+            void _initIsRunningMem();
             void _initMetaMem();
 
             void _initSems();
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index e857f5a..1569c61 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -118,10 +118,13 @@ namespace EigenIPC {
 
         }
 
-        _initMetaMem(); // initializes meta-memory
+        _initIsRunningMem(); // initializes the running flag
 
         _waitForServer();  // waits until server is properly initialized
 
+        _initMetaMem(); // initializes meta-memory (only now: while waiting, it
+        // could have been replaced)
+
         _initSems(); // creates necessary semaphores
 
         // acquire shared data semaphore or waits for it
@@ -852,6 +855,35 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_initIsRunningMem()
+    {
+        _return_code = _return_code + ReturnCode::RESET;
+
+        MemUtils::initMem<bool>(1,
+                        1,
+                        _mem_config.mem_path_isrunning,
+                        _isrunning_shm_fd,
+                        _isrunning_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+        }
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_initMetaMem()
     {
@@ -899,16 +931,6 @@ namespace EigenIPC {
                         _verbose,
                         _vlevel);
 
-        MemUtils::initMem<bool>(1,
-                        1,
-                        _mem_config.mem_path_isrunning,
-                        _isrunning_shm_fd,
-                        _isrunning_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
         MemUtils::initMem<int>(1,
                         1,
                         _mem_config.mem_path_mem_layout,
-- 
2.43.0


From c8d6bc631de542d37c044fba7923c7c1b381fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:20 +0000
Subject: [PATCH 17/48] fix: attaching twice or again counts the client once
 and does not leak

---
 EigenIPC/src/Client.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 1569c61..7419ac2 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -118,6 +118,15 @@ namespace EigenIPC {
 
         }
 
+        if (_attached) {
+
+            return; // nothing to do
+        }
+
+        _cleanMems(); // in case of a previous attachment
+
+        _terminated = false; // from now on there's something to be cleaned
+
         _initIsRunningMem(); // initializes the running flag
 
         _waitForServer();  // waits until server is properly initialized
-- 
2.43.0


From a23c9767acf38ee3fc1ce4d7340c49f532e75fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 18/48] fix: using closed or never attached endpoints raises
 instead of crashing

---
 EigenIPC/src/Client.cpp   |  5 ++---
 EigenIPC/src/MemUtils.hpp | 33 ++++++++++++++++++++++++++++++---
 EigenIPC/src/Server.cpp   | 14 +++++++++++---
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 7419ac2..0f245c4 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -674,9 +674,6 @@ namespace EigenIPC {
                             verbose,
                             _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -685,6 +682,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index fb87891..d8784e1 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -496,6 +496,12 @@ namespace EigenIPC{
 
         // semaphore stuff
 
+        inline bool isSemOpen(const sem_t* sem) {
+
+            return sem != nullptr && sem != SEM_FAILED;
+
+        }
+
         inline void semInit(const std::string& sem_path,
                     sem_t*& sem,
                     Journal& journal,
@@ -552,7 +558,7 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
-            if (sem != nullptr && sem != SEM_FAILED) {
+            if (isSemOpen(sem)) {
 
                 sem_close(sem); // closes semaphore for the current process
             }
@@ -622,7 +628,7 @@ namespace EigenIPC{
             }
 
             // Release the semaphore
-            if (sem_post(sem) == -1) {
+            if (!isSemOpen(sem) || sem_post(sem) == -1) {
 
                 // Handle semaphore release error
 
@@ -661,6 +667,13 @@ namespace EigenIPC{
             
             // this is blocking unless some signal is received
 
+            if (!isSemOpen(sem)) {
+
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             return_code = return_code + ReturnCode::SEMACQTRY;
 
             int result = sem_wait(sem);
@@ -698,6 +711,13 @@ namespace EigenIPC{
             
             // blocking wait with timeout
 
+            if (!isSemOpen(sem)) {
+
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             clock_gettime(CLOCK_REALTIME, &timeout);
 
             return_code = return_code + ReturnCode::SEMACQTRY;
@@ -741,6 +761,13 @@ namespace EigenIPC{
 
             // this is nonblocking --> one-shot acquisition 
 
+            if (!isSemOpen(sem)) {
+
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             // try to acquire the semaphore
             int result = sem_trywait(sem);
 
@@ -877,7 +904,7 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
-                    if (sem == SEM_FAILED) {
+                    if (!isSemOpen(sem)) {
 
                         // could not be recreated
                         return_code = return_code + ReturnCode::SEMACQFAIL;
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 51088a2..2cb478e 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -229,6 +229,15 @@ namespace EigenIPC {
 
         if (!isRunning()) {
             
+            if (_terminated) {
+
+                _journal.log(__FUNCTION__,
+                    std::string("Server at ") + _mem_config.mem_path +
+                    std::string(" was closed and cannot be run again."),
+                    LogType::EXCEP,
+                    true); // throw exception
+            }
+
             _acquireSemTimeout(_mem_config.mem_path_server_sem,
                         _srvr_sem,
                         _verbose); // blocking. from this point on, 
@@ -681,9 +690,6 @@ namespace EigenIPC {
                         verbose, // no verbosity (this is called very frequently)
                         _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -692,6 +698,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From 055cc81ed9c78912c2a965db5aa32f957d5050cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 19/48] fix: refuse strings longer than the string tensor's
 capacity

---
 EigenIPC/src/StringTensor.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index d9e6a6c..d39c7f2 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -218,7 +218,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            str.size() > _max_chars) {
 
             return false;
         }
@@ -285,6 +286,14 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) { // all strings have to fit
+
+            if (str.size() > _max_chars) {
+
+                return false;
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
-- 
2.43.0


From 320733373b0a43a61dafc393085c425169f946bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 20/48] fix: refuse lists of strings at negative positions

---
 EigenIPC/src/StringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index d39c7f2..9064a16 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -380,7 +380,7 @@ namespace EigenIPC {
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 || index + vec.size() > _length) {
 
             return false;
         }
-- 
2.43.0


From 1709ff8c3330974855284528d57a293266feaaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 21/48] fix: no signed overflow when encoding bytes above 127

---
 EigenIPC/src/StringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 9064a16..d017f12 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -322,7 +322,7 @@ namespace EigenIPC {
                  ++j) {
 
                 _tmp_value |= // UTF8 encoding
-                       (static_cast<int>(static_cast<unsigned char>(str[i + j])) << (j * 8));
+                       static_cast<int>(static_cast<unsigned int>(static_cast<unsigned char>(str[i + j])) << (j * 8));
 
             }
 
-- 
2.43.0


From be5dde30594346fe4041819d066247fc7843dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 22/48] fix: wait_and_ack reports a failed pre-acknowledge
 action

---
 EigenIPC/src/Consumer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index 08287be..e4f1d67 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -128,15 +128,17 @@ namespace EigenIPC {
 
         } else {
 
-            if (!pre_ack()) {
+            bool pre_ack_ok = pre_ack();
+
+            if (!ack()) { // (resets the fail counter)
 
                 _fail_count += 1;
+
             }
 
-            if (!ack()) { 
+            if (!pre_ack_ok) {
 
                 _fail_count += 1;
-
             }
 
         } 
-- 
2.43.0


From f12960560c25a9891b1332faa5191b27d4d77e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 23/48] fix: describe every return code, the highest included

---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index f35e7bb..489c5be 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -90,6 +90,9 @@ namespace EigenIPC {
                 {ReturnCode::SEMRELFAIL, "SEMRELFAIL"},
                 {ReturnCode::SEMCLOSE, "SEMCLOSE"},
                 {ReturnCode::SEMUNLINK, "SEMUNLINK"},
+                {ReturnCode::SEMACQSIGINT, "SEMACQSIGINT"},
+                {ReturnCode::WRITEFAIL, "WRITEFAIL"},
+                {ReturnCode::READFAIL, "READFAIL"},
                 // ... other codes
                 {ReturnCode::OTHER, "OTHER"},
                 {ReturnCode::UNKNOWN, "UNKNOWN"},
@@ -157,7 +160,7 @@ namespace EigenIPC {
         bool first = true;
 
         // Iterate through each base code and check if it is present in the combinedCode
-        for (unsigned long long i = 0; i <= 62; ++i) {
+        for (unsigned long long i = 0; i <= 63; ++i) {
 
             ReturnCode baseCode = static_cast<ReturnCode>(1ULL << i);
 
-- 
2.43.0


From 21b01eccae241114ce1ddf8404ef52bf3efeb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 24/48] fix: SEMACQRETRY no longer shares its bit with
 SEMACQTRY

---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index 489c5be..5b003d7 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -43,7 +43,6 @@ namespace EigenIPC {
         SEMACQ = 1ULL << 16, // semaphore acquired
         SEMACQFAIL = 1ULL << 17, // semaphore acquisition failed
         SEMACQTRY = 1ULL << 18, // trying semaphore acquisition
-        SEMACQRETRY = 1ULL << 18, // retrying semaphore acquisition
         SEMACQSIGINT = 1ULL << 19, // retrying semaphore acquisition
         SEMOPEN = 1ULL << 20, // semaphore opened
         SEMOPENFAIL = 1ULL << 21, // failed to open semaphore
@@ -53,6 +52,7 @@ namespace EigenIPC {
         SEMUNLINK = 1ULL << 25, // unlinked semaphore
         WRITEFAIL = 1ULL << 26, // failed to write to memory
         READFAIL = 1ULL << 27, // failed to read from memory
+        SEMACQRETRY = 1ULL << 28, // retrying semaphore acquisition
         // ... up to 1ULL << 62
         OTHER = 1ULL << 62,
         UNKNOWN = 1ULL << 63,
-- 
2.43.0


From 984e1d30a6479a0b23a10e152650d0581fef124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 25/48] fix: refuse arrays whose strides are not multiples of
 the element size

---
 .../bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..e956e1d 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -51,6 +51,22 @@ namespace PyEigenIPC {
             } // we restrict ourselves to work with only 2D tensors
 
 
+            if (buf_info.strides[0] % buf_info.itemsize != 0 ||
+                buf_info.strides[1] % buf_info.itemsize != 0) {
+
+                // (e.g. a field of a packed structured array)
+
+                // print non-blocking exception for the user
+                std::string message = std::string("Expected an array with strides multiple of the element size.");
+
+                EigenIPC::Journal::log("PyEigenIPC::Utils",
+                            "CheckInputBuffer",
+                            message,
+                            LogType::EXCEP);
+
+                return false;
+            }
+
             if ((Layout == EigenIPC::RowMajor) &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
 
-- 
2.43.0


From 6c98a7a3d8c9c104a941ae76a350e5b6acbdbec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 26/48] fix: reading into a read-only array raises

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 2 +-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 1363e69..f794e13 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -69,7 +69,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true); // raises if not writeable
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 1444532..9aa3ada 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -68,7 +68,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true); // raises if not writeable
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
-- 
2.43.0


From 0492268226f9eabda144fd38ad58addac3471e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 27/48] fix: reading a block into an array checks it against
 the NumPy mirror

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 895c70c2dc86e7adc64cb11ba075228b6c2e8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 28/48] fix: a shared dictionary's client cannot read names and
 dimensions before they are written

---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py  | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 74c42be..3c2c63b 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -220,13 +220,23 @@ class SharedTensorDict():
 
     def run(self):
         
-        self.data.run()
+        if self.is_server:
+
+            # data is run last: clients wait for it before reading names
+            # and dimensions, which at that point are guaranteed to be available
+            self.shared_names.run()
+
+            self.shared_dims.run()
 
-        self.shared_names.run()
+            self.data.run()
 
-        self.shared_dims.run()
+        else:
+
+            self.data.run()
+
+            self.shared_names.run()
 
-        if not self.is_server:
+            self.shared_dims.run()
 
             self.names = self.shared_names.names
             
-- 
2.43.0


From 53acaaf676461b1b914c3404714cbfb865277f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 29/48] fix: the bridge from ROS serves the requested basename

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0ac21b3..92c4514 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -170,7 +170,7 @@ class FromRos():
                 # creating a shared mem server
                 self._server = ServerFactory(n_rows = self._subscriber.n_rows(), 
                             n_cols = self._subscriber.n_cols(),
-                            basename = self._basename + "AAAAAA",
+                            basename = self._basename,
                             namespace = self._namespace, 
                             verbose = self._verbose, 
                             vlevel = self._vlevel, 
-- 
2.43.0


From 15b6671438256cfe1b45fc1260d8420b9332ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 30/48] fix: running an already running bridge from ROS reports
 success

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 92c4514..7b5fd75 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -182,7 +182,7 @@ class FromRos():
 
                 self._is_running = True # ready
         
-        return sub_success and self._is_running
+        return self._is_running
 
     def close(self):
 
-- 
2.43.0


From 0cf7a9fd40c2d34328e44301561bdd18140ea347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 31/48] fix: the bridge to ROS attaches a client that is not
 attached yet

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index aeebeda..ac51d17 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -226,7 +226,13 @@ class ToRos():
                         
             # manually run client if not running
 
-            self._client.run()
+            if self._is_string_tensor:
+
+                self._client.run()
+
+            else:
+
+                self._client.attach()
         
         self._init_publisher()
     
-- 
2.43.0


From 973521343dca855b4ae002404217836186519fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 32/48] fix: a view of negative size is refused

---
 EigenIPC/include/EigenIPC/Helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Helpers.hpp b/EigenIPC/include/EigenIPC/Helpers.hpp
index fcef2f2..e172ede 100644
--- a/EigenIPC/include/EigenIPC/Helpers.hpp
+++ b/EigenIPC/include/EigenIPC/Helpers.hpp
@@ -63,7 +63,8 @@ namespace EigenIPC {
             }
 
             // Check if there's enough space for the submatrix
-            if (i + n_rows2fit > n_rows ||
+            if (n_rows2fit < 0 || n_cols2fit < 0 ||
+                i + n_rows2fit > n_rows ||
                 j + n_cols2fit > n_cols) {
 
                 if (verbose &&
-- 
2.43.0


From b6443d6111495f0dd3f34fd07438657e5d633bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 33/48] fix: a client of another element type of the same size
 is refused

---
 EigenIPC/src/Client.cpp   | 12 +++++-------
 EigenIPC/src/MemUtils.hpp | 34 ++++++++++++++++++++++++++++++++++
 EigenIPC/src/Server.cpp   |  2 +-
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 0f245c4..2ccb8b7 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -545,14 +545,12 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_checkDType()
     {
-        if (_dtype_view(0, 0) != sizeof(Scalar)) {
+        if (_dtype_view(0, 0) != MemUtils::getDTypeCode<Scalar>()) {
 
-            // not impeccable: different types may have in general different sizes
-
-            std::string error = std::string("Client initialized with element size of ") +
-                    std::to_string(sizeof(Scalar)) +
-                    std::string(", while the Server was initialized with size ") +
-                    std::to_string(_dtype_view(0, 0));
+            std::string error = std::string("Client initialized with element type ") +
+                    MemUtils::getDTypeName(MemUtils::getDTypeCode<Scalar>()) +
+                    std::string(", while the Server was initialized with type ") +
+                    MemUtils::getDTypeName(_dtype_view(0, 0));
 
             _journal.log(__FUNCTION__,
                          error,
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index d8784e1..98ae37a 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -53,6 +53,40 @@ namespace EigenIPC{
                 std::is_same<Scalar, typename DTypeToCppType<DType::Bool>::type>::value;
         };
 
+        template <typename Scalar>
+        constexpr int getDTypeCode() {
+
+            // identifies the element type in the shared memory
+            // (0, i.e. memory which was not initialized, is not a valid code)
+            return static_cast<int>(CppTypeToDType<Scalar>::value) + 1;
+        }
+
+        inline std::string getDTypeName(int code) {
+
+            switch(code) {
+
+                case getDTypeCode<float>():
+
+                    return "EigenIPC::Float";
+
+                case getDTypeCode<double>():
+
+                    return "EigenIPC::Double";
+
+                case getDTypeCode<int>():
+
+                    return "EigenIPC::Int";
+
+                case getDTypeCode<bool>():
+
+                    return "EigenIPC::Bool";
+
+                default:
+
+                    return "Unknown element type";
+            }
+        }
+
         inline std::string getLayoutName(int layout) {
 
             switch(layout) {
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 2cb478e..cee6fe7 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -948,7 +948,7 @@ namespace EigenIPC {
 
             _mem_layout_view(0, 0) = _mem_layout; // mem layout
 
-            _dtype_view(0, 0) = sizeof(Scalar);
+            _dtype_view(0, 0) = MemUtils::getDTypeCode<Scalar>();
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From a259170db7feac4fcbe3c5cf79570c2ab2404ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 34/48] fix: a server being closed does not clean up the name
 under a starting one

---
 EigenIPC/include/EigenIPC/Server.hpp |   2 +
 EigenIPC/src/Server.cpp              | 104 ++++++++++++++++++++-------
 2 files changed, 80 insertions(+), 26 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index a8309b0..5e7dd69 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -199,6 +199,8 @@ namespace EigenIPC{
             void _cleanMetaMem();
             void _cleanMems();
 
+            void _setNotRunning();
+
             bool _isSuperseded() const; // whether another server took
             // over the name
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index cee6fe7..9252c72 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -238,19 +238,29 @@ namespace EigenIPC {
                     true); // throw exception
             }
 
-            _acquireSemTimeout(_mem_config.mem_path_server_sem,
-                        _srvr_sem,
-                        _verbose); // blocking. from this point on, 
-            // other servers trying to transition to running state will fail
-            // due to the sever semaphore being acquired
+            bool superseded = _isSuperseded();
 
-            if (_isSuperseded()) {
+            if (!superseded) {
 
-                // cannot be restarted: another server took over after a stop()
-                _releaseSem(_mem_config.mem_path_server_sem,
+                _acquireSemTimeout(_mem_config.mem_path_server_sem,
                             _srvr_sem,
-                            _verbose);
+                            _verbose); // blocking. from this point on, 
+                // other servers trying to transition to running state will fail
+                // due to the sever semaphore being acquired
+
+                superseded = _isSuperseded();
+
+                if (superseded) {
+
+                    _releaseSem(_mem_config.mem_path_server_sem,
+                                _srvr_sem,
+                                _verbose);
+                }
+            }
 
+            if (superseded) {
+
+                // cannot be restarted: another server took over after a stop()
                 _journal.log(__FUNCTION__,
                     std::string("Another server was created at ") + _mem_config.mem_path,
                     LogType::EXCEP,
@@ -292,12 +302,7 @@ namespace EigenIPC {
 
         if (isRunning()) {
             
-            _running = false;
-
-            if (!_isSuperseded()) {
-
-                _isrunning_view(0, 0) = 0; // for the clients
-            }
+            _setNotRunning();
 
             MemUtils::releaseSem(_mem_config.mem_path_server_sem,
                                 _srvr_sem,
@@ -310,6 +315,22 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_setNotRunning()
+    {
+
+        if (_running) {
+
+            _running = false;
+
+            if (!_isSuperseded()) {
+
+                _isrunning_view(0, 0) = 0; // for the clients
+            }
+        }
+
+    }
+
     template <typename Scalar, int Layout>
     bool Server<Scalar, Layout>::isRunning()
     {
@@ -338,7 +359,43 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::close()
     {
 
-        stop(); // stop server if running
+        if (!_terminated) {
+
+            // no other server can transition to running state while this one
+            // is being closed: the server semaphore is only given back if
+            // the name is not cleaned up
+            bool srvr_lock_held = _running;
+
+            _setNotRunning();
+
+            if (!srvr_lock_held && !_isSuperseded()) {
+
+                srvr_lock_held = _acquireSemOneShot(_mem_config.mem_path_server_sem,
+                                        _srvr_sem);
+            }
+
+            if (!srvr_lock_held || _isSuperseded()) {
+
+                // everything under this name belongs (or is about to) to another server
+                _unlink_data = false;
+
+                if (srvr_lock_held) {
+
+                    _releaseSem(_mem_config.mem_path_server_sem,
+                                _srvr_sem,
+                                _verbose);
+                }
+
+                if (_init_lock_held) {
+
+                    _releaseSem(_mem_config.mem_path_data_sem,
+                                _data_sem,
+                                _verbose);
+
+                    _init_lock_held = false;
+                }
+            }
+        }
 
         _cleanMems(); // cleans up all memory,
         // semaphores included (if necessary)
@@ -808,12 +865,6 @@ namespace EigenIPC {
 
             _return_code = _return_code + ReturnCode::RESET;
 
-            if (_isSuperseded()) {
-
-                // everything under this name now belongs to another server
-                _unlink_data = false;
-            }
-
             MemUtils::cleanUpMem(_mem_config.mem_path,
                                  _data_shm_fd,
                                  _journal,
@@ -1033,16 +1084,17 @@ namespace EigenIPC {
         // closes semaphores and also unlinks it
         // Other processes who had it open can still use it, but no new
         // process can access it
-        MemUtils::semClose(_mem_config.mem_path_server_sem,
-                           _srvr_sem,
+        MemUtils::semClose(_mem_config.mem_path_data_sem,
+                           _data_sem,
                            _journal,
                            _return_code,
                            _verbose,
                            _vlevel,
                            _unlink_data);
 
-        MemUtils::semClose(_mem_config.mem_path_data_sem,
-                           _data_sem,
+        // last one to go: whoever finds it held knows the name is still in use
+        MemUtils::semClose(_mem_config.mem_path_server_sem,
+                           _srvr_sem,
                            _journal,
                            _return_code,
                            _verbose,
-- 
2.43.0


From c63f74a2128555a0a2eaa94ee0e73ae6dd6d51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 35/48] fix: closing a producer or a consumer releases its
 mutexes and condition variables

---
 EigenIPC/src/Consumer.cpp | 15 +++++++++------
 EigenIPC/src/Producer.cpp | 16 +++++++++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index e4f1d67..4badb6a 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -81,13 +81,16 @@ namespace EigenIPC {
 
     void Consumer::close() {
 
-        if (!_closed) {
-            
-            _trigger_counter_clnt.close();
-            _ack_counter_clnt.close();
+        // (also needed if it never got to run)
+        _trigger_counter_clnt.close();
+        _ack_counter_clnt.close();
 
-            _closed = true;
-        }
+        // mutexes and cond. vars are not needed anymore
+        _trigger_cond_ptr.reset();
+        _ack_cond_ptr.reset();
+
+        _is_running = false;
+        _closed = true;
     }
 
     bool Consumer::wait(int ms_timeout) {
diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 6a81a8b..74898e0 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -88,14 +88,16 @@ namespace EigenIPC {
 
     void Producer::close() {
 
-        if (!_closed) {
-            
-            _trigger_counter_srvr.close();
-            _ack_counter_srvr.close();
+        // (also needed if it never got to run)
+        _trigger_counter_srvr.close();
+        _ack_counter_srvr.close();
 
-            _closed = true;
-        }
-        
+        // mutexes and cond. vars are not needed anymore
+        _trigger_cond_ptr.reset();
+        _ack_cond_ptr.reset();
+
+        _is_running = false;
+        _closed = true;
     
     }
 
-- 
2.43.0


From b4ecb9b3dcfba6581567277056b61e28cf639dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 36/48] fix: running a producer which was closed, or fails to
 run, leaves no condition variables

---
 EigenIPC/src/Producer.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 74898e0..71812f5 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -44,7 +44,7 @@ namespace EigenIPC {
             force_reconnection, 
             false),
         _ack_counter(1, 1),
-        _closed(true),
+        _closed(false),
         _basename(basename),
         _namespace(name_space),
         _unique_id(std::string("->")+ basename+std::string("-")+name_space),
@@ -62,15 +62,34 @@ namespace EigenIPC {
 
         if (!_is_running) {
 
-            _create_cond_vars(); // we first create the condition variables
+            if (_closed) {
 
-            _trigger_counter_srvr.run();
-            _ack_counter_srvr.run();
+                // (must not touch what might belong to another producer by now)
+                _journal.log(__FUNCTION__+_unique_id,
+                    "Was closed and cannot be run again.",
+                    LogType::EXCEP, 
+                    true); // throw exception
+            }
+
+            try {
+
+                _create_cond_vars(); // we first create the condition variables
+
+                _trigger_counter_srvr.run();
+                _ack_counter_srvr.run();
 
-            _init_counters();
+                _init_counters();
+
+            } catch (...) {
+
+                // nothing is left half-made
+                _trigger_cond_ptr.reset();
+                _ack_cond_ptr.reset();
+
+                throw;
+            }
 
             _is_running = true;
-            _closed = false;
 
             _acks_before = 0;
 
-- 
2.43.0


From f97b611a4dc07f1c614d34de6937b05603b5b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 37/48] fix: a closed string tensor is not running anymore

---
 EigenIPC/src/StringTensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index d017f12..47bb1f0 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -265,6 +265,8 @@ namespace EigenIPC {
 
         _sh_mem.close();
 
+        _running = false;
+
     }
 
     template <typename ShMemType>
-- 
2.43.0


From 3af9d0a98854e84fcf61373306a772ad71577242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 38/48] fix: a server which took over by force and never ran
 cleans up its name when closed

---
 EigenIPC/src/Server.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 9252c72..d1dad6c 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -374,7 +374,12 @@ namespace EigenIPC {
                                         _srvr_sem);
             }
 
-            if (!srvr_lock_held || _isSuperseded()) {
+            // a server which took over the name by force and never got to run might
+            // find it held by its predecessor. Nobody can be starting in this case,
+            // since it still holds the data semaphore
+            bool forced_init = _force_reconnection && _init_lock_held;
+
+            if ((!srvr_lock_held && !forced_init) || _isSuperseded()) {
 
                 // everything under this name belongs (or is about to) to another server
                 _unlink_data = false;
-- 
2.43.0


From 49bf616e6a2cdb980810fca7fb13b1dddc0a9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 39/48] fix: closing a server which never ran gives its data
 semaphore back

---
 EigenIPC/src/Server.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index d1dad6c..cd142e4 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -390,15 +390,16 @@ namespace EigenIPC {
                                 _srvr_sem,
                                 _verbose);
                 }
+            }
 
-                if (_init_lock_held) {
+            if (_init_lock_held) {
 
-                    _releaseSem(_mem_config.mem_path_data_sem,
-                                _data_sem,
-                                _verbose);
+                // never run: endpoints of a previous server might be using this semaphore
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose);
 
-                    _init_lock_held = false;
-                }
+                _init_lock_held = false;
             }
         }
 
-- 
2.43.0


From 0fb329cf09ea699fd819fe47ab06034975516865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 40/48] fix: a server which cannot check for leftover memory
 reports it

---
 EigenIPC/src/MemUtils.hpp | 6 ++++++
 EigenIPC/src/Server.cpp   | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 98ae37a..4ce8058 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -27,6 +27,7 @@
 #include <unistd.h>
 #include <semaphore.h>
 #include <csignal>
+#include <cerrno>
 #include <memory>
 
 #include <EigenIPC/DTypes.hpp>
@@ -376,6 +377,11 @@ namespace EigenIPC{
 
                 }
 
+            } else if (errno != ENOENT) {
+
+                // might exist, but could not be checked
+                return_code = return_code + ReturnCode::MEMCREATFAIL;
+
             }
 
         }
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index cd142e4..a98c8d1 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -135,6 +135,14 @@ namespace EigenIPC {
                                 _unlink_data); // checks if memory was already allocated
             // if yes, cleans it up
 
+            if (isin(ReturnCode::MEMCREATFAIL, _return_code)) {
+
+                MemUtils::failWithCode(_return_code,
+                                       _journal,
+                                       __FUNCTION__,
+                                       _mem_config.mem_path);
+            }
+
             _return_code = _return_code + ReturnCode::RESET;
 
             // data memory
-- 
2.43.0


From 8c997c359246e4488ae49179502c07287be3b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 41/48] fix: creating a condition variable which fails leaves
 nothing half-made

---
 EigenIPC/src/CondVar.cpp | 42 +++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index f8ccdbe..63f2bb1 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -60,13 +60,41 @@ namespace EigenIPC {
                 }
             }
 
-            _cond_ptr = std::make_unique<NamedCondition>(
-                            boost::interprocess::create_only, 
-                            _mem_config.mem_path_cond_var.c_str());
-                            
-            _mutex_ptr = std::make_unique<NamedMutex>(
-                                boost::interprocess::create_only,
-                                _mem_config.mem_path_cond_var_mutex.c_str());
+            try {
+
+                _cond_ptr = std::make_unique<NamedCondition>(
+                                boost::interprocess::create_only, 
+                                _mem_config.mem_path_cond_var.c_str());
+
+            } catch (const boost::interprocess::interprocess_exception& ex) {
+
+                if (ex.get_error_code() != boost::interprocess::already_exists_error) {
+
+                    // might have been left half-made
+                    NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
+                }
+
+                throw;
+            }
+
+            try {
+
+                _mutex_ptr = std::make_unique<NamedMutex>(
+                                    boost::interprocess::create_only,
+                                    _mem_config.mem_path_cond_var_mutex.c_str());
+
+            } catch (const boost::interprocess::interprocess_exception& ex) {
+
+                if (ex.get_error_code() != boost::interprocess::already_exists_error) {
+
+                    NamedMutex::remove(_mem_config.mem_path_cond_var_mutex.c_str());
+                }
+
+                // (created above)
+                NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
+
+                throw;
+            }
 
         } else {
 
-- 
2.43.0


From a0bbc9bb897f2a18b3e3d90331fcf2c2ef750555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 42/48] fix: consumers cannot acknowledge before a starting
 producer has initialized its counters

---
 EigenIPC/src/Producer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 71812f5..57114de 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -75,6 +75,11 @@ namespace EigenIPC {
 
                 _create_cond_vars(); // we first create the condition variables
 
+                // (a consumer might attach right away, but cannot acknowledge
+                // until the counters are initialized)
+                ScopedLock trigger_lock = _trigger_cond_ptr->lock();
+                ScopedLock ack_lock = _ack_cond_ptr->lock();
+
                 _trigger_counter_srvr.run();
                 _ack_counter_srvr.run();
 
@@ -182,7 +187,7 @@ namespace EigenIPC {
 
     void Producer::_init_counters() {
 
-        ScopedLock trigger_lock = _trigger_cond_ptr->lock();
+        // (called with both locks held)
         _trigger_counter(0, 0) = 0; // initialize shared counter to 0
         if (!_trigger_counter_srvr.write(_trigger_counter, 0, 0)) {
             _journal.log(__FUNCTION__+_unique_id,
@@ -191,7 +196,6 @@ namespace EigenIPC {
                 true); // throw exception
         }
 
-        ScopedLock ack_lock = _ack_cond_ptr->lock();
         _ack_counter(0, 0) = 0; // initialize shared counter to 0
         if (!_ack_counter_srvr.write(_ack_counter, 0, 0)) {
             _journal.log(__FUNCTION__+_unique_id,
-- 
2.43.0


From 610c548175ce0180d689834d8174852b2a540cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 43/48] fix: an array of a single row or column matches either
 layout

NumPy reports the strides of contiguous single-row arrays as row-major,
so no such array could be exchanged with a column-major tensor.
---
 EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index e956e1d..666c002 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -67,7 +67,10 @@ namespace PyEigenIPC {
                 return false;
             }
 
-            if ((Layout == EigenIPC::RowMajor) &&
+            // (a single row or column has no order: its outer stride is arbitrary)
+            bool has_order = buf_info.shape[0] > 1 && buf_info.shape[1] > 1;
+
+            if ((Layout == EigenIPC::RowMajor) && has_order &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
@@ -88,7 +91,7 @@ namespace PyEigenIPC {
                 return false;
             }
 
-            if ((Layout == EigenIPC::ColMajor) &&
+            if ((Layout == EigenIPC::ColMajor) && has_order &&
                     (buf_info.strides[0] > buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
-- 
2.43.0


From 06a134a90f41a75002bb338db0a180d92bf506a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 44/48] fix: refuse reading strings out of range before forming
 the block (assertion failure in debug builds)

---
 EigenIPC/src/StringTensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 47bb1f0..688fe9f 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -172,6 +172,7 @@ namespace EigenIPC {
         // ordered evaluation)
 
         return isRunning() &&
+               _fits(vec, col_index) && // (the block has to exist)
                _sh_mem.read(_buffer.block(0, col_index,
                                                 _n_rows, vec.size()), 0, col_index) && // just update the block
                _decode_vec(vec, col_index);
-- 
2.43.0


From 624b0de09cc0484a78dc1bc398f4c00f3c693ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 45/48] fix: destroying a client while a signal interrupts its
 wait for the data lock terminated the process

---
 EigenIPC/src/Client.cpp       | 11 ++++++++++-
 EigenIPC/src/Consumer.cpp     |  9 ++++++++-
 EigenIPC/src/StringTensor.cpp |  9 ++++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 2ccb8b7..85afa4f 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -81,7 +81,16 @@ namespace EigenIPC {
 
         if (!_terminated) {
 
-            close();
+            try {
+
+                close();
+
+            } catch (const std::exception&) {
+
+                // a signal interrupted the wait for the data semaphore: nothing
+                // can be raised from here, but everything is released
+                _cleanMems();
+            }
         }
 
     }
diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index 4badb6a..7da3b6d 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -49,7 +49,14 @@ namespace EigenIPC {
 
     Consumer::~Consumer(){
         
-        close();
+        try {
+
+            close();
+
+        } catch (const std::exception&) {
+
+            // (interrupted by a signal: the destructors of the members will clean up)
+        }
     }
 
     void Consumer::run() {
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 688fe9f..308a3d7 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -140,7 +140,14 @@ namespace EigenIPC {
     template <typename ShMemType>
     StringTensor<ShMemType>::~StringTensor() {
 
-        _sh_mem.close();
+        try {
+
+            _sh_mem.close();
+
+        } catch (const std::exception&) {
+
+            // (interrupted by a signal: its destructor will clean up)
+        }
 
     }
 
-- 
2.43.0


From a15101c3eabe12b6e05bb29411521f869a59c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 46/48] fix: data too large for an entry of a shared dictionary
 ended up in the entries which follow

---
 .../bindings/PyEigenIPC/wrappers/shared_tensor_dict.py   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 3c2c63b..eb8e101 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -268,6 +268,15 @@ class SharedTensorDict():
 
         data_2D = np.atleast_2d(data)
 
+        if data_2D.shape[0] > self.dimensions[data_idx]:
+
+            # (would end up in the entries which follow)
+            Journal.log(self.__class__.__name__,
+                "write",
+                f"Provided data has {data_2D.shape[0]} rows, but {name} has only {self.dimensions[data_idx]}!",
+                LogType.EXCEP,
+                throw_when_excep = True)
+
         if retry: 
 
             self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-- 
2.43.0


From 414c0c7eb1f425592bd492ee08b82048b6212083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 47/48] fix: a message received during FromRos.update() was
 written in part to the rebuilt tensor

---
 .../extensions/ros_bridge/abstractions.py     | 26 +++++++++++--------
 .../extensions/ros_bridge/from_ros.py         | 16 +++++++++---
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
index 00dd098..9e4f383 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
@@ -9,7 +9,7 @@ from EigenIPC.PyEigenIPC import Journal, VLevel, LogType
 from std_msgs.msg import Bool, Int32, Float32, Float64
 from std_msgs.msg import Int32MultiArray, Float32MultiArray, Float64MultiArray
 
-from perf_sleep.pyperfsleep import PerfSleep
+from threading import Lock
 
 import numpy as np
 
@@ -275,9 +275,7 @@ class RosSubscriber(ABC):
         self._terminated = False
         self._is_running = False
 
-        self._wait_sleep_time_ns =  1000
-    
-        self._writing_data = False
+        self._data_lock = Lock() # protects np_data
 
         self._reading_data = False
 
@@ -482,21 +480,27 @@ class RosSubscriber(ABC):
 
     def acquire_data(self):
 
-        while self._writing_data:
+        # blocking, no msg is received until release_data() is called
+        self._data_lock.acquire()
+
+    def release_data(self):
 
-            PerfSleep.thread_sleep(self._wait_sleep_time_ns)
+        self._data_lock.release()
 
     def _data_callback(self,
                     msg):
         
-        self._writing_data = True
+        self.acquire_data()
+
+        try:
+
+            # write data (also updated numpy view)
 
-        # write data (also updated numpy view)
+            self.np_data[:, :] = np.array(msg.data).reshape((self._n_rows, self._n_cols))
 
-        self.np_data[:, :] = np.array(msg.data).reshape((self._n_rows, self._n_cols))
+        finally:
 
-        # "release" data 
-        self._writing_data = False
+            self.release_data()
                 
     def _got_metadata(self):
         
diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 7b5fd75..d637b3d 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -123,7 +123,7 @@ class FromRos():
         
         if retry:
             
-            while not self._server.write(self._subscriber.np_data[:, :], 0, 0):
+            while not self._write_once():
                 
                 continue
 
@@ -131,7 +131,19 @@ class FromRos():
         
         else:
 
+            return self._write_once()
+        
+    def _write_once(self):
+
+        self._subscriber.acquire_data() # blocking (a msg received meanwhile would be written only in part)
+
+        try:
+
             return self._server.write(self._subscriber.np_data[:, :], 0, 0)
+
+        finally:
+
+            self._subscriber.release_data()
         
     def _synch_from_topic(self):
         
@@ -192,8 +204,6 @@ class FromRos():
         
         if self._is_running:
 
-            self._subscriber.acquire_data() # blocking
-
             # updates shared mem with latest read data on topic
                     
             return self._write_to_shared()
-- 
2.43.0


From 24d33836674b9f03cd393bb5b35c395fc5b43216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 48/48] fix: timed waits of several threads on one condition
 variable overwrote each other's deadline

---
 EigenIPC/include/EigenIPC/CondVar.hpp | 2 --
 EigenIPC/src/CondVar.cpp              | 6 ++++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/CondVar.hpp b/EigenIPC/include/EigenIPC/CondVar.hpp
index 2453a2c..e599bb4 100644
--- a/EigenIPC/include/EigenIPC/CondVar.hpp
+++ b/EigenIPC/include/EigenIPC/CondVar.hpp
@@ -112,8 +112,6 @@ namespace EigenIPC{
             std::unique_ptr<NamedCondition> _cond_ptr;
             std::unique_ptr<NamedMutex> _mutex_ptr;
 
-            boost::posix_time::ptime _utc_timeout;
-            
             ScopedLock _lock;
 
             bool _cleanup_mem();
diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index 63f2bb1..370136e 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -169,6 +169,9 @@ namespace EigenIPC {
     bool ConditionVariable::timedwait(ScopedLock& named_lock,
                     unsigned int ms) {
         
+        boost::posix_time::ptime _utc_timeout; // (not a member, since other threads
+        // might be waiting on this same object with another timeout)
+
         _utc_timeout = boost::posix_time::microsec_clock::universal_time() + 
                 boost::posix_time::millisec(ms);
 
@@ -181,6 +184,9 @@ namespace EigenIPC {
                     unsigned int ms,
                     std::function<bool()> pred) {
         
+        boost::posix_time::ptime _utc_timeout; // (not a member, since other threads
+        // might be waiting on this same object with another timeout)
+
         _utc_timeout = boost::posix_time::microsec_clock::universal_time() + 
                 boost::posix_time::millisec(ms);
 
-- 
2.43.0

