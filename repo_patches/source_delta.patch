From a68fca368d03361bcd06c7d86167547b42cdadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:37 +0000
Subject: [PATCH 01/37] fix: crash faults on two-path operations honour
 from_rgx

The check of the 'from' pattern was inverted: a fault on rename, link or symlink fired for every
source path unless its pattern happened to match the word 'none'.
---
 lazyfs/src/lazyfs.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..757e8bf 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -139,8 +139,7 @@ void LazyFS::trigger_crash_fault (string opname,
                 string to = it.second;
                 std::regex to_rgx (".*" + to + ".*");
 
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
                     regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
 
@@ -223,6 +222,10 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    // operations with two paths may restrict only the 'to' path
+    if (crash_regex_from == "none")
+        crash_regex_from = "";
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-- 
2.43.0


From a7ce73d36e57199050c952c1f6a4a4d9b33180f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 02/37] fix: torn faults crash on the exact path, not on the
 path read as a pattern

Paths with characters such as '+' or '(' either never matched, so LazyFS kept running after
persisting part of a write, or threw std::regex_error.
---
 lazyfs/src/lazyfs.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 757e8bf..08eb3f5 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -42,6 +42,18 @@ std::shared_mutex cache_command_lock;
 
 namespace lazyfs {
 
+// Makes a path usable as a literal in the (ECMAScript) patterns of crash faults
+static string escape_regex (const string& path) {
+
+    string escaped;
+    for (char c : path) {
+        if (strchr ("^$\\.*+?()[]{}|/", c) != nullptr)
+            escaped += '\\';
+        escaped += c;
+    }
+    return escaped;
+}
+
 /* Write class */
 Write::Write() {
     this->path = this->buf = NULL;
@@ -524,7 +536,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
                 if (pw==this->pending_write->size) {
                     if ((fault->persist).size()==1) {
-                        this_ ()->add_crash_fault ("after", "write", path_str, "none");            
+                        this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
                         return res;
@@ -555,7 +567,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", path_str, "none"); 
+                            this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none"); 
                             spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
@@ -651,7 +663,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         } 
                     }
 
-                    this_ ()->add_crash_fault ("after", "write", path_s, "none");            
+                    this_ ()->add_crash_fault ("after", "write", escape_regex (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
-- 
2.43.0


From 3025360f3dcabb1ee3eef60761e8f73259362c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 03/37] fix: configured clear faults with timing before fire at
 the configured occurrence

The counter was compared before being advanced, so the fault fired one operation late, and unlink
advanced it twice because it never announced its 'after' timing.
---
 lazyfs/src/lazyfs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 08eb3f5..c84e2fc 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -199,7 +199,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
@@ -2173,7 +2173,7 @@ int LazyFS::lfs_unlink (const char* path) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From 48e0c73ed8331ee0d6f2a78ab0af70605b679b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 04/37] fix: configured clear faults with timing after no
 longer deadlock

The operation still held cache_command_lock (shared) when the fault asked for it exclusively.
---
 lazyfs/src/lazyfs.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index c84e2fc..c02786d 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -866,6 +866,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
+    lock.unlock ();
+
     if (fi->flags & O_TRUNC)
         lfs_truncate (path, 0, fi);
 
@@ -945,6 +947,7 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
     }
 
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
     return 0;
@@ -1304,6 +1307,7 @@ int LazyFS::lfs_write (const char* path,
     
 
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
     return res;
@@ -1548,6 +1552,7 @@ int LazyFS::lfs_read (const char* path,
         close (fd);
 
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
     return res;
@@ -1587,6 +1592,7 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
 
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
     return res;
@@ -1719,6 +1725,7 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
     return 0;
@@ -1866,6 +1873,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         return -errno;
 
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
     return 0;
@@ -1889,6 +1897,7 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
 }
@@ -1911,6 +1920,7 @@ int LazyFS::lfs_access (const char* path, int mask) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
     return 0;
@@ -1956,6 +1966,7 @@ int LazyFS::lfs_link (const char* from, const char* to) {
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
     return 0;
@@ -2173,6 +2184,7 @@ int LazyFS::lfs_unlink (const char* path) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
+    lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
-- 
2.43.0


From 169c9b1cf5b78bb7092faff6ab53550326434d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:14 +0000
Subject: [PATCH 05/37] fix: commands written to the faults fifo are taken one
 line at a time

A read() returns at most 100 bytes and possibly several commands: longer commands were cut in two
and commands written in a row were dropped.
---
 lazyfs/src/main.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..d1a13d9 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -28,6 +28,28 @@ cache::config::Config std_config;
 std::thread faults_handler_thread;
 LazyFS fs;
 
+// Reads the next command from the fifo: commands are lines, which may arrive together or in pieces.
+// What was read past the end of the line is kept in 'pending' for the next call.
+static bool read_command (int fd_fifo, std::string& pending, std::string& command) {
+
+    char buffer[MAX_READ_CHUNK];
+    size_t end_of_line;
+
+    while ((end_of_line = pending.find ('\n')) == std::string::npos) {
+
+        int ret = read (fd_fifo, buffer, MAX_READ_CHUNK);
+        if (ret <= 0)
+            return false;
+
+        pending.append (buffer, ret);
+    }
+
+    command = pending.substr (0, end_of_line);
+    pending.erase (0, end_of_line + 1);
+
+    return true;
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -54,14 +76,14 @@ void fht_worker (LazyFS* filesystem) {
 
     spdlog::info ("[lazyfs.faults.worker]: waiting for fault commands...");
 
-    char buffer[MAX_READ_CHUNK];
+    std::string pending;
+    std::string command_str;
     int ret;
     while (true) {
-        if ((ret = read (fd_fifo, &buffer, MAX_READ_CHUNK)) > 0) {
+        if (read_command (fd_fifo, pending, command_str)) {
 
-            buffer[ret - 1] = '\0';
+            const char* buffer = command_str.c_str ();
 
-            std::string command_str = string (buffer);
             if (command_str.rfind ("lazyfs::crash", 0) == 0) {
 
                 std::regex rgx_global ("::");
-- 
2.43.0


From 1dfbda5981e3895eae009555405420b9cb868867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:14 +0000
Subject: [PATCH 06/37] fix: an incomplete or malformed crash command no longer
 terminates LazyFS

Without op or timing, or with an invalid pattern, add_crash_fault threw in the worker thread.
---
 lazyfs/src/main.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index d1a13d9..95ec3be 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -147,6 +147,22 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (crash_operation == "none" || crash_timing == "none") {
+                    errors.push_back ("should specify 'op' and 'timing'");
+                    VF = false;
+                }
+
+                try {
+
+                    std::regex from_rgx (".*" + crash_from_rgx + ".*");
+                    std::regex to_rgx (".*" + crash_to_rgx + ".*");
+
+                } catch (const std::regex_error& e) {
+
+                    errors.push_back ("'from_rgx' and 'to_rgx' should be regular expressions");
+                    VF = false;
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
-- 
2.43.0


From 566d8d40f93813348e7d05fa2ea785581d033e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 07/37] fix: torn-op and torn-seq commands accept occurrence
 and reject incomplete requests

The documented attribute was refused (and ignored, after reporting success); missing attributes
were accepted; numbers that do not fit an int terminated LazyFS; an unsorted persist list made
torn-seq crash after the wrong write.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  6 ++--
 lazyfs/src/lazyfs.cpp            | 11 ++++---
 lazyfs/src/main.cpp              | 52 ++++++++++++++++++++++++++------
 3 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5fcff7c..7b49913 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -381,9 +381,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param path path of the fault
      * @param op system call 
      * @param persist which parts of the write to persist
+     * @param occurrence which group of writes of the file to inject
      * @return errors
     */
-    vector<string> add_torn_seq_fault(string path, string op, string persist);
+    vector<string> add_torn_seq_fault(string path, string op, string persist, string occurrence);
 
     /**
      * @brief Adds a torn-op fault to the faults map. Returns a vector with errors if any.
@@ -392,9 +393,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param parts which parts of the write to persist
      * @param parts_bytes division of the write in bytes
      * @param persist which parts of the write to persist
+     * @param occurrence which write of the file to split
      * @return errors
     */
-    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist);
+    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist, string occurrence);
 
     /**
      * @brief Kills lazyfs with SIGKILL if any fault condition verifies
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index c02786d..6756acb 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -252,7 +252,7 @@ void LazyFS::add_crash_fault (string crash_timing,
     }
 }
 
-vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
+vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist, string occurrence_str) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -279,7 +279,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
         partsi = stoi(parts);
     }
 
-    int occurrence=1;
+    int occurrence = stoi(occurrence_str);
 
     faults::SplitWriteF* fault;
     vector<string> errors;
@@ -315,7 +315,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     return errors;
 }
 
-vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist) {
+vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist, string occurrence_str) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -326,7 +326,10 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
-    faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
+    //Sorting the persist vector is necessary for injecting this fault
+    sort(persistv.begin(), persistv.end());
+
+    faults::ReorderF* fault = new faults::ReorderF(op, persistv, stoi(occurrence_str));
     vector<string> errors = fault->validate();
 
     bool valid_fault = true;
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 95ec3be..18251bf 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -239,6 +239,7 @@ void fht_worker (LazyFS* filesystem) {
                 string parts = "none";
                 string parts_bytes = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -263,7 +264,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts=", 0) == 0) {
 
                         string tmp_parts = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"(\d+)");
+                        std::regex pattern(R"(\d{1,9})");
 
                         if (!std::regex_match(tmp_parts, pattern)) {
                             errors.push_back ("parts should be a number");
@@ -275,7 +276,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts_bytes=", 0) == 0) {
                         
                         string tmp_parts_bytes = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_parts_bytes, pattern)) {
                             errors.push_back ("parts_bytes should be a list of numbers separated by commas");
@@ -287,7 +288,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_persist = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_persist, pattern)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
@@ -295,22 +296,38 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_persist;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d{1,9})");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else 
+                            occurrence = tmp_occurrence;
+                        
                     } else if (current != "lazyfs" && current != "torn-op") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if ((parts=="none") == (parts_bytes=="none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
                 
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_op;
                 if (valid_fault) 
-                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist, occurrence);
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -337,6 +354,7 @@ void fht_worker (LazyFS* filesystem) {
                 string file = "none";
                 string op = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -369,7 +387,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_per = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_per, pattern)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
@@ -377,17 +395,33 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_per;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d{1,9})");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else 
+                            occurrence = tmp_occurrence;
+                        
                     } else if (current != "lazyfs" && current != "torn-seq") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
+                if (file=="none" || op=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file', 'op' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
-                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist, occurrence);
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From 466501a3b3a0e34ad350bd2c1c4022fb3154b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 08/37] fix: invalid torn-seq injections of the configuration
 file are rejected

The validation errors went to a shadowed variable.
---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From cf507b5ee600155bd98220bde1ffc10c32909b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 09/37] fix: the unsynced data report excludes only files under
 fault injection

The condition was inverted: once a torn fault was being injected the report listed that file alone.
It also read past the last block and reported wrong first blocks after a gap.
---
 lazyfs/src/lazyfs.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6756acb..0f58968 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -376,7 +376,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
@@ -401,7 +401,9 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_it = std::next (block_it);
+
+                        if (next_it == std::get<2> (it).end () || block_id != (get<0> (*next_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
@@ -413,8 +415,8 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                                 (offs.second + block_id * FSConfig->IO_BLOCK_SIZE) -
                                     (first_block_id * FSConfig->IO_BLOCK_SIZE));
 
-                            last_block_off_start = offs.first;
-                            last_block_index     = block_id;
+                            // the next block starts another sequence
+                            last_block_index = -1;
                         }
 
                         total_bytes_unsynced +=
-- 
2.43.0


From 432dae84aaacf0295c28a4082e5133708820f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:05 +0000
Subject: [PATCH 10/37] fix: open with O_TRUNC keeps the access mode, and
 O_APPEND stays out of the backing file

A file opened O_RDWR|O_TRUNC could not be read from disk (EBADF), and on an O_APPEND descriptor
pwrite() ignores the offset, so written-through data landed at the end of the file.
---
 lazyfs/src/lazyfs.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 0f58968..c75e0b5 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -838,9 +838,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
+    // the cached content is what O_TRUNC truncates, and writes always come with their offset
+    int access_tmp = fi->flags & ~(O_TRUNC | O_APPEND);
 
     res = open (path, access_tmp);
 
@@ -873,8 +872,15 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     lock.unlock ();
 
-    if (fi->flags & O_TRUNC)
-        lfs_truncate (path, 0, fi);
+    if (fi->flags & O_TRUNC) {
+
+        res = lfs_truncate (path, 0, fi);
+
+        if (res < 0) {
+            close (fi->fh);
+            return res;
+        }
+    }
 
     this_ ()->trigger_crash_fault ("open", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("open", "after", path, "");
@@ -891,7 +897,7 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     int res;
 
-    res = open (path, fi->flags, mode);
+    res = open (path, fi->flags & ~O_APPEND, mode);
 
     if (res == -1)
         return -errno;
-- 
2.43.0


From 5ff0105e286e2c6eb136777290e7c4ca107b167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 11/37] fix: fsync reports errors and keeps what was not
 written dirty

open, pwritev and ftruncate failures and short writes on the backing file were ignored: fsync
returned 0 and the blocks were marked clean, so acknowledged data was silently lost.
---
 lazyfs/src/lazyfs.cpp                         |  6 +-
 libs/libpcache/include/cache/cache.hpp        |  2 +-
 .../engine/backends/custom/custom_cache.hpp   |  2 +-
 .../include/cache/engine/page_cache.hpp       |  5 +-
 libs/libpcache/src/cache.cpp                  |  7 +-
 .../engine/backends/custom/custom_cache.cpp   | 79 +++++++++++++------
 6 files changed, 67 insertions(+), 34 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index c75e0b5..53919cc 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1596,11 +1596,13 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
 
     if (isdatasync)
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path)
-                              : fdatasync (fi->fh);
+                              : (fdatasync (fi->fh) == -1 ? -errno : 0);
     else
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path)
-                              : fsync (fi->fh);
+                              : (fsync (fi->fh) == -1 ? -errno : 0);
 
+    if (res < 0)
+        return res;
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     lock.unlock ();
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 68dce2d..3cbea1d 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -240,7 +240,7 @@ class Cache {
      * @param owner the content id
      * @param only_sync_data only sync data from content
      * @param orig_path original path to write data
-     * @return int true if item was removed
+     * @return int 0 if synced, -errno otherwise
      */
     int sync_owner (string owner, bool only_sync_data, char* orig_path);
 
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 361977b..824f8d7 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -174,7 +174,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    bool sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index d05b700..97a436b 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -136,10 +136,9 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
-     * @return true the pages were synced
-     * @return false the content was not found
+     * @return int 0 if everything was written, -errno otherwise (what was not written stays dirty)
      */
-    virtual bool sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..11174bd 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -360,7 +360,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     if (!has_content_cached (owner)) {
 
         lock.unlock ();
-        return -1;
+        return -ENOENT;
     }
 
     lockItem (owner);
@@ -373,9 +373,10 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     off_t last_size = get_content_metadata (owner)->size;
 
     res = this->engine->sync_pages (owner, last_size, orig_path);
-    _get_content_ptr (owner)->set_data_sync_flag (true);
+    if (res == 0)
+        _get_content_ptr (owner)->set_data_sync_flag (true);
 
-    if (not only_sync_data) {
+    if (res == 0 && not only_sync_data) {
 
         // sync metadata
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..28b93e0 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -471,17 +471,47 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+// Writes a sequence of blocks completely, returning 0 or -errno
+static int write_blocks (int fd, struct iovec* iov, int iov_count, off_t offset) {
+
+    while (iov_count > 0) {
+
+        ssize_t written = pwritev (fd, iov, iov_count, offset);
+
+        if (written < 0 && errno == EINTR)
+            continue;
+
+        if (written <= 0)
+            return written < 0 ? -errno : -EIO;
+
+        offset += written;
+
+        for (; iov_count > 0 && (size_t)written >= iov->iov_len; iov++, iov_count--)
+            written -= iov->iov_len;
+
+        if (iov_count > 0) {
+            iov->iov_base = (char*)iov->iov_base + written;
+            iov->iov_len -= written;
+        }
+    }
+
+    return 0;
+}
+
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
-    int fd = open (orig_path, O_WRONLY);
+    int res = 0;
+    int fd  = open (orig_path, O_WRONLY);
+
+    if (fd < 0)
+        return -errno;
 
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
     if (this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end ()) {
 
-        off_t wrote_bytes = 0;
         off_t page_streak = 0;
 
         auto& iterate_blocks = this->owner_ordered_pages_mapping.at (owner);
@@ -489,26 +519,22 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
         map<int, tuple<int, Page*, pair<int, int>, bool>> new_iterate_blocks;
 
         for (auto cit = iterate_blocks.begin (); cit != iterate_blocks.end (); cit++) {
-            auto pptr = std::get<1> (cit->second);
-            if (pptr->is_page_dirty ()) {
+            bool is_synced = std::get<3> (cit->second);
+            if (not is_synced)
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
-            }
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
-
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
 
-        for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end (); it++) {
+        for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end () && res == 0;
+             it++) {
 
-            auto current_block_id     = it->first;
-            auto const& next_block_id = std::next (it, 1)->first;
+            auto current_block_id = it->first;
+            auto next_it          = std::next (it, 1);
 
-            if ((page_streak < (__IOV_MAX - 1)) && (it != prev (new_iterate_blocks.end (), 1)) &&
-                (current_block_id == (next_block_id - 1))) {
+            if ((page_streak < (__IOV_MAX - 1)) && (next_it != new_iterate_blocks.end ()) &&
+                (current_block_id == (next_it->first - 1))) {
 
                 page_streak++;
 
@@ -522,7 +548,7 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
                 struct iovec iov[page_streak];
 
-                page_streak_last_offset =
+                off_t page_streak_offset =
                     (current_block_id - page_streak + 1) * this->config->IO_BLOCK_SIZE;
 
                 for (int p_id = 0; p_id < page_streak; p_id++) {
@@ -541,29 +567,34 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                     } else {
                         iov[p_id].iov_len = this->config->IO_BLOCK_SIZE;
                     }
-
-                    // mark block as clean
-                    std::get<3> (iterate_blocks.at (streak_block)) = true;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                res = write_blocks (fd, iov, page_streak, page_streak_offset);
+
+                // mark blocks as clean, only once they were written
+                for (int p_id = 0; res == 0 && p_id < page_streak; p_id++)
+                    std::get<3> (iterate_blocks.at (current_block_id - p_id)) = true;
 
                 page_streak = 0;
 
                 page_chunk.clear ();
-
-                page_streak_last_offset = (current_block_id + 1) * this->config->IO_BLOCK_SIZE;
             }
         }
+
+        if (res == 0) {
+            for (auto const& it : new_iterate_blocks)
+                std::get<1> (it.second)->set_page_as_dirty (false);
+        }
     }
 
-    if (ftruncate (fd, size) < 0) {
+    if (res == 0 && ftruncate (fd, size) < 0) {
+        res = -errno;
         spdlog::info ("ftruncate: failed");
     }
 
     close (fd);
 
-    return 0;
+    return res;
 }
 
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
-- 
2.43.0


From 1e4b872c1b8bb622d61b3e6324deefb45b26f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:09 +0000
Subject: [PATCH 12/37] fix: file times set with utimens are visible, and fsync
 persists the times

utimens bypassed the cached metadata that getattr returns, and fsync called utimes() on the inode
number instead of the path.
---
 lazyfs/src/lazyfs.cpp        | 26 ++++++++++++++++++++++++++
 libs/libpcache/src/cache.cpp |  3 +--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 53919cc..acd57a4 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2137,6 +2137,32 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    // cached times override the ones of the underlying file
+
+    struct stat stbuf;
+    if (lstat (path, &stbuf) == -1)
+        return -errno;
+
+    string inode = to_string (stbuf.st_ino);
+
+    if (this_ ()->FSCache->lockItemCheckExists (inode)) {
+
+        Metadata meta;
+        vector<string> update_meta_values = {"ctime"};
+
+        meta.atim = stbuf.st_atim;
+        meta.mtim = stbuf.st_mtim;
+        meta.ctim = stbuf.st_ctim;
+
+        if (ts[0].tv_nsec != UTIME_OMIT)
+            update_meta_values.push_back ("atime");
+        if (ts[1].tv_nsec != UTIME_OMIT)
+            update_meta_values.push_back ("mtime");
+
+        this_ ()->FSCache->update_content_metadata (inode, meta, update_meta_values);
+        this_ ()->FSCache->unlockItem (inode);
+    }
+
     return 0;
 }
 // #endif
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 11174bd..33b4738 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -386,8 +386,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
         TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
         TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        utimes (orig_path, times);
     }
 
     unlockItem (owner);
-- 
2.43.0


From e8863a2eaf55ea4b9b80d58e38048e6d3f54040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 13/37] fix: pages may hold more than one block

With blocks_per_page > 1, reading or truncating any block but the first of a page used wrong
lengths, truncating a block released the page of the others, and pages with free blocks were
handed out beyond their capacity.
---
 .../engine/backends/custom/custom_cache.cpp   | 27 +++++++++++++------
 libs/libpcache/src/engine/page/page.cpp       |  5 ++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 28b93e0..44ef987 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -125,7 +125,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->owner_pages_mapping.find (owner_id) != this->owner_pages_mapping.end ()) {
 
-        auto free_pages = this->owner_free_pages_mapping.at (owner_id);
+        auto& free_pages = this->owner_free_pages_mapping.at (owner_id);
 
         if (free_pages.size () > 0) {
 
@@ -640,26 +640,37 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
         Page* page = _get_page_ptr (page_id);
 
-        if (page->is_page_owner (content_owner_id)) {
+        if (page != nullptr && page->is_page_owner (content_owner_id) &&
+            page->contains_block (blk_id)) {
 
             // std::printf ("%s: %s is page %d owner\n", __func__, content_owner_id.c_str (),
             // page_id);
 
             if (blk_id == from_block_id && index_inside_block > 0) {
 
-                if (page->contains_block (from_block_id)) {
-                    page->make_block_readable_to (from_block_id, index_inside_block - 1);
-                    page->write_null_from (from_block_id, index_inside_block);
-                }
+                page->make_block_readable_to (from_block_id, index_inside_block - 1);
+                page->write_null_from (from_block_id, index_inside_block);
 
             } else {
 
                 page->remove_block (blk_id);
 
-                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                 this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
 
-                if (not page->is_page_dirty ()) {
+                // the page is free for other blocks of this owner, or for everyone if now empty
+
+                auto& owner_free_pages = this->owner_free_pages_mapping.at (content_owner_id);
+                owner_free_pages.erase (
+                    std::remove (owner_free_pages.begin (), owner_free_pages.end (), page_id),
+                    owner_free_pages.end ());
+
+                if (not page->allocated_block_ids.empty ()) {
+
+                    owner_free_pages.push_back (page_id);
+
+                } else {
+
+                    this->owner_pages_mapping.at (content_owner_id).erase (page_id);
 
                     // add page to free pages...
                     this->free_pages.push_back (page_id);
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 076460a..8cc5df8 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -110,9 +110,8 @@ void Page::get_block_data (int block_id, char* buffer, int read_to_max_index) {
 
     pair<int, int> offsets = get_block_offsets (block_id);
     int off_min            = offsets.first;
-    int off_max            = read_to_max_index + 1;
 
-    memcpy (buffer, this->data + off_min, off_max - off_min);
+    memcpy (buffer, this->data + off_min, read_to_max_index + 1);
 }
 
 pair<int, int> Page::get_block_offsets (int block_id) {
@@ -201,7 +200,7 @@ void Page::write_null_from (int block_id, int from_offset) {
 
     memset (this->data + off_first + from_offset,
             0,
-            this->config->IO_BLOCK_SIZE - off_first - from_offset);
+            this->config->IO_BLOCK_SIZE - from_offset);
 }
 
 void Page::remove_block (int block_id) {
-- 
2.43.0


From 2247de2815a38b73982234c1e0ed6949ea658c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:15 +0000
Subject: [PATCH 14/37] fix: eviction does not lose unsynced data

A dirty page was 'synced' to a file named after the inode number and then dropped, stale page
lists let two files share a page, and a write could find its block evicted and cache it again
without the rest of its content. Only clean pages are evicted now; without one, the write goes
through to the underlying file, as it does when eviction is off and the cache is full.
---
 lazyfs/src/lazyfs.cpp                         |  2 +-
 .../include/cache/engine/page_cache.hpp       |  1 +
 .../engine/backends/custom/custom_cache.cpp   | 30 +++++++++++++++----
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index acd57a4..7bfffd2 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1233,7 +1233,7 @@ int LazyFS::lfs_write (const char* path,
                                                            blk_readable_to - blk_readable_from + 1,
                                                            blk_readable_from,
                                                            blk_readable_to}}},
-                                                        OP_WRITE);
+                                                        OP_UPDATE);
                 bool curr_block_put_exists = put_res.find (CURR_BLK_IDX) != put_res.end ();
 
                 if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index 97a436b..1bd555b 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -32,6 +32,7 @@ namespace cache::engine {
 enum AllocateOperationType {
     OP_READ,       /**< Specifies that the put operation comes from a read operation */
     OP_WRITE,      /**< Specifies that the put operation comes from a write operation */
+    OP_UPDATE, /**< Specifies the write of part of a block that must be cached already */
     OP_PASSTHROUGH /**< Specifies the otherwise case (equal to OP_READ for now) */
 };
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 44ef987..41f8e3e 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -149,7 +149,17 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->config->APPLY_LRU_EVICTION) {
 
-        int replace_page_id = this->lru_main_vector.back ();
+        // only pages that are in sync with the underlying file can be dropped
+
+        auto lru_it = std::find_if (
+            this->lru_main_vector.rbegin (),
+            this->lru_main_vector.rend (),
+            [&] (int page_id) { return not _get_page_ptr (page_id)->is_page_dirty (); });
+
+        if (lru_it == this->lru_main_vector.rend ())
+            return make_pair (-1, nullptr);
+
+        int replace_page_id = *lru_it;
 
         // cout << "[engine] _get_next_free_page: Applying eviction of page '" <<
         // replace_page_id
@@ -170,11 +180,12 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         if (this->owner_pages_mapping.find (old_owner) != this->owner_pages_mapping.end ()) {
             this->owner_pages_mapping.at (old_owner).erase (replace_page_id);
-            // todo: if in free pages remove from there
-        }
 
-        if (page_to_reset->is_page_dirty ())
-            page_to_reset->sync_data ();
+            auto& owner_free_pages = this->owner_free_pages_mapping.at (old_owner);
+            owner_free_pages.erase (
+                std::remove (owner_free_pages.begin (), owner_free_pages.end (), replace_page_id),
+                owner_free_pages.end ());
+        }
 
         // cout << "[engine] _get_next_free_page: Resetting page '" <<
         // replace_page_id << "'...\n";
@@ -182,6 +193,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
         // this->owner_ordered_pages_mapping.at (owner);
 
         page_to_reset->reset ();
+        page_to_reset->change_owner ("none");
 
         return make_pair (replace_page_id, page_to_reset);
     }
@@ -385,6 +397,14 @@ map<int, int> CustomCacheEngine::allocate_blocks (
                 continue;
             }
         }
+
+        if (operation_type == OP_UPDATE) {
+
+            // the rest of the block is not in the cache anymore
+            res_block_allocated_pages.insert (pair<int, int> (blk_id, -1));
+            continue;
+        }
+
         // default behaviour if a new free page is needed
 
         pair<int, Page*> next_free_page = _get_next_free_page (content_owner_id);
-- 
2.43.0


From a731724e74a6b24a6dfc7270d4b07afc58fa6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:51 +0000
Subject: [PATCH 15/37] fix: torn-op persists the parts that were asked for

The bytes left over by an uneven split belong to the last part of the write, not to the last one
of the persist list, which then leaked into the part after it. The descriptor is closed too.
---
 lazyfs/src/lazyfs.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 7bfffd2..6903857 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -606,7 +606,6 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                 split_fault->counter.fetch_add(1);
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
-                    fd = open(path, O_CREAT|O_WRONLY, 0666);
                     vector<tuple<int,int,int>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
@@ -649,7 +648,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                             size_t final_size_to_persist = size_to_persist;
 
                             off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
+                            if (extra_size_to_persist>0 && p == split_fault->parts) {
                                 spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
                                 final_size_to_persist += extra_size_to_persist;
                             }
@@ -659,15 +658,20 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                          }
                     }
 
+                    fd = open(path, O_CREAT|O_WRONLY, 0666);
+
                     for (auto & persist : persist_info) {
                         int pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
                         if (pw==get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
                         else {
                             spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
+                            close(fd);
                             return res;
                         } 
                     }
 
+                    close(fd);
+
                     this_ ()->add_crash_fault ("after", "write", escape_regex (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
-- 
2.43.0


From 24e629ee32a4e7919917ee22ae7d15610241a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:12 +0000
Subject: [PATCH 16/37] fix: torn-seq keeps the write on hold of each file
 apart

With torn-seq faults on two files, a write to one persisted or discarded the pending write of the
other.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  4 ++--
 lazyfs/src/lazyfs.cpp            | 25 +++++++++++++++----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 7b49913..153385c 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -113,9 +113,9 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     std::unordered_map<string, unordered_set<string>> crash_faults;
 
     /**
-     * @brief Write that was put on hold and may or may not be persisted.
+     * @brief For each file, the write that was put on hold and may or may not be persisted.
      */
-    Write *pending_write;
+    unordered_map<string, Write*> pending_writes;
 
     /**
      * @brief Lock for pending write.
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6903857..ef1b45a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -91,7 +91,6 @@ LazyFS::LazyFS (Cache* cache,
     this->faults_handler_thread = faults_handler_thread;
     this->fht_worker            = fht_worker;
     this->faults                = faults;
-    this->pending_write         = NULL;
 
     for (auto const& it : this->allow_crash_fs_operations) {
         this->crash_faults_before_map.insert ({it, {}});
@@ -485,9 +484,10 @@ void LazyFS::restart_counter(string path, string op) {
 bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     bool res = false;
     (this->write_lock).lock();
-    if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {
-        delete(this->pending_write); 
-        this->pending_write = NULL;
+    auto it = this->pending_writes.find(path);
+    if ((res = (it != this->pending_writes.end()))) {
+        delete(it->second); 
+        this->pending_writes.erase(it);
     }
     (this->write_lock).unlock();
 
@@ -531,15 +531,19 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
             fault->group_counter.fetch_add(1);
         }
 
-        if (this->pending_write!=NULL) {
+        auto pending_it = this->pending_writes.find(path_str);
+
+        if (pending_it != this->pending_writes.end()) {
+            Write* pending_write = pending_it->second;
+
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (this->pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);
+                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
                 spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
                 close(fd);
 
-                if (pw==this->pending_write->size) {
+                if (pw==pending_write->size) {
                     if ((fault->persist).size()==1) {
                         this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
@@ -550,14 +554,15 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
                 }
             }
-            delete(this->pending_write); this->pending_write = NULL;
+            delete(pending_write);
+            this->pending_writes.erase(pending_it);
         }
         (this->write_lock).unlock();
         
         if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
             if (fault->counter==1) { //If array persist has 1st write, we need to store this write until we know another write will happen
                 (this->write_lock).lock();
-                this->pending_write = new Write(path,buf,size,offset);
+                this->pending_writes[path_str] = new Write(path,buf,size,offset);
                 (this->write_lock).unlock();
                 
             } else {
-- 
2.43.0


From c01b7f84cdc8be70a35726378e66c6e17bb7d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 17/37] fix: write reports errors and short writes

write always returned the requested size, even if the block could not be read or written on the
backing file, and extended the file by it. Filling a gap with zeros also counted as a write of the
application for the injected faults.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  20 +++
 lazyfs/src/lazyfs.cpp            | 202 ++++++++++++++++++++-----------
 2 files changed, 151 insertions(+), 71 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 153385c..700487e 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -336,6 +336,26 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
                           off_t offset,
                           struct fuse_file_info* fi);
 
+    /**
+     * @brief Writes to the cached content of a file, filling with zeros up to the offset.
+     *
+     * @param path path of the file
+     * @param inode content id of the file
+     * @param fd descriptor to write with when the data cannot be cached
+     * @param buf data to write
+     * @param size number of bytes to write
+     * @param offset where to write
+     * @param fi open file, if any
+     * @return number of bytes written, or -errno if none
+     */
+    static ssize_t write_content (const char* path,
+                                  const string& inode,
+                                  int fd,
+                                  const char* buf,
+                                  size_t size,
+                                  off_t offset,
+                                  struct fuse_file_info* fi);
+
     static int lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi);
 
     static int lfs_rmdir (const char* path);
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ef1b45a..3d7c527 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -54,6 +54,44 @@ static string escape_regex (const string& path) {
     return escaped;
 }
 
+// Reads until the buffer is full or the file ends, returning the number of bytes read or -errno
+static ssize_t pread_full (int fd, char* buf, size_t size, off_t offset) {
+
+    size_t done = 0;
+    while (done < size) {
+
+        ssize_t res = pread (fd, buf + done, size - done, offset + done);
+
+        if (res == -1 && errno == EINTR)
+            continue;
+        if (res == -1)
+            return -errno;
+        if (res == 0)
+            break;
+
+        done += res;
+    }
+    return done;
+}
+
+// Writes the whole buffer, returning its size or -errno
+static ssize_t pwrite_full (int fd, const char* buf, size_t size, off_t offset) {
+
+    size_t done = 0;
+    while (done < size) {
+
+        ssize_t res = pwrite (fd, buf + done, size - done, offset + done);
+
+        if (res == -1 && errno == EINTR)
+            continue;
+        if (res <= 0)
+            return res == -1 ? -errno : -EIO;
+
+        done += res;
+    }
+    return done;
+}
+
 /* Write class */
 Write::Write() {
     this->path = this->buf = NULL;
@@ -1004,10 +1042,54 @@ int LazyFS::lfs_write (const char* path,
 
     struct stat stats;
 
-    lfs_getattr (path, &stats, fi);
+    res = lfs_getattr (path, &stats, fi);
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
+    if (res == 0)
+        res = write_content (path, inode, fd, buf, size, offset, fi);
+
+    if (res < 0) {
+
+        if (fi == NULL)
+            close (fd);
+
+        return res;
+    }
+
+    // ----------------------------------------------------------------------------------
+    
+    string fault_type = CLEAR;
+    bool crash_added = this_ () -> persist_write(path,buf,res,offset);
+    if (!crash_added) { //At the moment only one fault type can be injected
+        crash_added =  this_ () -> split_write(path,buf,res,offset);
+        fault_type = TORN_OP;
+    } else {
+        fault_type = TORN_SEQ; 
+    }
+
+    // std::printf ("\twrite: returning %d bytes\n", res);
+
+    if (fi == NULL)
+        close (fd);
+
+    
+
+    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
+    lock.unlock ();
+    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
+
+    return res;
+}
+
+ssize_t LazyFS::write_content (const char* path,
+                               const string& inode,
+                               int fd,
+                               const char* buf,
+                               size_t size,
+                               off_t offset,
+                               struct fuse_file_info* fi) {
+
     int IO_BLOCK_SIZE = this_ ()->FSConfig->IO_BLOCK_SIZE;
 
     // -------------------------------------------------------------
@@ -1016,7 +1098,9 @@ int LazyFS::lfs_write (const char* path,
 
         // std::printf ("\t[write] direct_io=1, flushing data...");
 
-        res = pwrite (fd, buf, size, offset);
+        ssize_t res = pwrite (fd, buf, size, offset);
+
+        return res == -1 ? -errno : res;
 
     } else {
 
@@ -1024,14 +1108,9 @@ int LazyFS::lfs_write (const char* path,
 
         bool locked_this = this_ ()->FSCache->lockItemCheckExists (inode);
 
-        bool cache_had_owner   = this_ ()->FSCache->has_content_cached (inode);
         off_t FILE_SIZE_BEFORE = 0;
 
-        if (!locked_this) {
-
-            FILE_SIZE_BEFORE = stats.st_size;
-
-        } else {
+        if (locked_this) {
 
             Metadata* meta_now = this_ ()->FSCache->get_content_metadata (inode);
 
@@ -1045,24 +1124,27 @@ int LazyFS::lfs_write (const char* path,
 
         // ----------------------------------------------------------------------------------
 
-        if (fi != NULL) {
+        if (FILE_SIZE_BEFORE < offset) {
 
-            if (FILE_SIZE_BEFORE < offset) {
+            // fill sparse write with zeros, how?
+            // [file_size_offset, offset - 1] = zeros
 
-                // fill sparse write with zeros, how?
-                // [file_size_offset, offset - 1] = zeros
+            spdlog::info ("[lazyfs.ops]: Calling a sparse write.");
 
-                spdlog::info ("[lazyfs.ops]: Calling a sparse write.");
+            off_t size_to_fill = offset - std::max (FILE_SIZE_BEFORE, (off_t)0);
 
-                off_t size_to_fill = offset - std::max (FILE_SIZE_BEFORE, (off_t)0);
+            char* fill_zeros = (char*)calloc (size_to_fill, 1);
+            if (fill_zeros == NULL)
+                return -ENOMEM;
 
-                if (size_to_fill > 0) {
+            ssize_t filled =
+                write_content (path, inode, fd, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, fi);
+            free (fill_zeros);
 
-                    char* fill_zeros = (char*)calloc (size_to_fill, 1);
-                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
-                    free (fill_zeros);
-                }
-            }
+            if (filled != size_to_fill)
+                return filled < 0 ? filled : -EIO;
+
+            FILE_SIZE_BEFORE = offset;
         }
 
         // ----------------------------------------------------------------------------------
@@ -1074,6 +1156,7 @@ int LazyFS::lfs_write (const char* path,
         off_t data_allocated       = 0;
         off_t data_buffer_iterator = 0;
         int fd_caching             = open (path, O_RDONLY);
+        ssize_t res                = fd_caching == -1 ? -errno : 0;
 
         char block_caching_buffer[IO_BLOCK_SIZE];
         map<int, tuple<const char*, size_t, int, int>> put_mapping;
@@ -1132,10 +1215,10 @@ int LazyFS::lfs_write (const char* path,
 
                     if (needs_pread) {
 
-                        pread_res = pread (fd_caching,
-                                           block_caching_buffer,
-                                           IO_BLOCK_SIZE,
-                                           CURR_BLK_IDX * IO_BLOCK_SIZE);
+                        pread_res = pread_full (fd_caching,
+                                                block_caching_buffer,
+                                                IO_BLOCK_SIZE,
+                                                CURR_BLK_IDX * IO_BLOCK_SIZE);
                     }
 
                     if (pread_res < 0) {
@@ -1143,7 +1226,7 @@ int LazyFS::lfs_write (const char* path,
                         // Read failed for this file,
                         // We assume that the file is not reachable
 
-                        res = -1;
+                        res = pread_res;
                         break;
 
                     } else {
@@ -1202,13 +1285,13 @@ int LazyFS::lfs_write (const char* path,
 
                             // Block allocation in cache failed
 
-                            int pwrite_res = pwrite (fd,
-                                                     cache_buf,
-                                                     cache_wr_sz,
-                                                     CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
+                            int pwrite_res = pwrite_full (fd,
+                                                          cache_buf,
+                                                          cache_wr_sz,
+                                                          CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
 
-                            if (pwrite_res != cache_wr_sz) {
-                                res = -1;
+                            if (pwrite_res < 0) {
+                                res = pwrite_res;
                                 break;
                             }
                         }
@@ -1219,7 +1302,6 @@ int LazyFS::lfs_write (const char* path,
                     // Read failed for this file,
                     // We assume that the file is not reachable
 
-                    res = -1;
                     break;
                 }
 
@@ -1247,13 +1329,13 @@ int LazyFS::lfs_write (const char* path,
 
                 if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {
 
-                    int pwrite_res = pwrite (fd,
-                                             buf + data_buffer_iterator,
-                                             blk_readable_to - blk_readable_from + 1,
-                                             CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
+                    int pwrite_res = pwrite_full (fd,
+                                                  buf + data_buffer_iterator,
+                                                  blk_readable_to - blk_readable_from + 1,
+                                                  CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
-                    if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
-                        res = -1;
+                    if (pwrite_res < 0) {
+                        res = pwrite_res;
                         break;
                     }
                 }
@@ -1264,7 +1346,15 @@ int LazyFS::lfs_write (const char* path,
 
         // ----------------------------------------------------------------------------------
 
-        // close (fd_caching);
+        // what follows a failure was not written
+
+        off_t written = data_buffer_iterator;
+
+        if (fd_caching != -1)
+            close (fd_caching);
+
+        if (written == 0)
+            return res;
 
         // ----------------------------------------------------------------------------------
 
@@ -1272,7 +1362,7 @@ int LazyFS::lfs_write (const char* path,
 
         if (locked) {
 
-            off_t was_written_until_offset = offset + size;
+            off_t was_written_until_offset = offset + written;
 
             Metadata meta;
             meta.size = was_written_until_offset > FILE_SIZE_BEFORE ? was_written_until_offset
@@ -1299,38 +1389,8 @@ int LazyFS::lfs_write (const char* path,
             this_ ()->FSCache->unlockItem (inode);
         }
 
-        close (fd_caching);
+        return written;
     }
-
-    // ----------------------------------------------------------------------------------
-    
-    string fault_type = CLEAR;
-    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
-    if (!crash_added) { //At the moment only one fault type can be injected
-        crash_added =  this_ () -> split_write(path,buf,size,offset);
-        fault_type = TORN_OP;
-    } else {
-        fault_type = TORN_SEQ; 
-    }
-
-    // res should be = actual bytes written as pwrite could fail...
-    res = size;
-
-    // std::printf ("\twrite: returning %d bytes\n", res);
-
-    if (res == -1)
-        res = -errno;
-
-    if (fi == NULL)
-        close (fd);
-
-    
-
-    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
-    lock.unlock ();
-    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
-
-    return res;
 }
 
 int LazyFS::lfs_read (const char* path,
-- 
2.43.0


From 31fd2e0901329a07a11cadbbede81cf105e0a9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 18/37] fix: read returns the bytes of the file, no more, or
 the error

Reads crossing the end of the file returned stale bytes of the block or of the backing file, a
failed pread() was added to the count as -1, short pread()s shifted what followed, and the
zero-fill of a short cached block wrote past the buffer.
---
 lazyfs/src/lazyfs.cpp | 141 ++++++++++++++++++++----------------------
 1 file changed, 67 insertions(+), 74 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3d7c527..bb5e1fb 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -74,6 +74,18 @@ static ssize_t pread_full (int fd, char* buf, size_t size, off_t offset) {
     return done;
 }
 
+// Fills the buffer with file data, or with zeros after its end, returning 0 or -errno
+static int pread_zero_filled (int fd, char* buf, size_t size, off_t offset) {
+
+    ssize_t res = pread_full (fd, buf, size, offset);
+
+    if (res < 0)
+        return res;
+
+    memset (buf + res, 0, size - res);
+    return 0;
+}
+
 // Writes the whole buffer, returning its size or -errno
 static ssize_t pwrite_full (int fd, const char* buf, size_t size, off_t offset) {
 
@@ -1422,7 +1434,7 @@ int LazyFS::lfs_read (const char* path,
     std::string OWNER (path);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    res = lfs_getattr (path, &stats, fi);
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
@@ -1430,11 +1442,8 @@ int LazyFS::lfs_read (const char* path,
 
     // ----------------------------------------------------------------------------------
 
-    off_t blk_low        = offset / IO_BLOCK_SIZE;
-    off_t blk_high       = (offset + size - 1) / IO_BLOCK_SIZE;
     int fd_caching       = fd;
     off_t BUF_ITERATOR   = 0;
-    off_t BYTES_LEFT     = size;
     off_t data_allocated = 0;
 
     char read_buffer[IO_BLOCK_SIZE];
@@ -1446,22 +1455,7 @@ int LazyFS::lfs_read (const char* path,
     Metadata meta;
     if (not cache_had_owner) {
 
-        this_ ()->FSCache->put_data_blocks (inode, {}, OP_PASSTHROUGH);
-        bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
-
-        struct stat stats;
-
-        if (stat (path, &stats) == 0)
-            meta.size = stats.st_size;
-
-        struct timespec access_time;
-        clock_gettime (CLOCK_REALTIME, &access_time);
-        meta.atim = access_time;
-
-        if (locked) {
-            this_ ()->FSCache->update_content_metadata (inode, meta, {"size", "atime"});
-            this_ ()->FSCache->unlockItem (inode);
-        }
+        meta.size = res == 0 ? stats.st_size : 0;
 
     } else {
 
@@ -1480,8 +1474,15 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
-        return 0;
+    // nothing can be read after the end of the file
+
+    if (offset >= meta.size)
+        size = 0;
+    else if ((off_t)size > meta.size - offset)
+        size = meta.size - offset;
+
+    off_t blk_low  = offset / IO_BLOCK_SIZE;
+    off_t blk_high = size > 0 ? (off_t)(offset + size - 1) / IO_BLOCK_SIZE : blk_low - 1;
 
     // ---------------------------------------------------------------------------------
 
@@ -1491,10 +1492,7 @@ int LazyFS::lfs_read (const char* path,
     off_t blk_readable_from = 0;
     off_t blk_readable_to   = 0;
 
-    for (off_t CURR_BLK_IDX = blk_low; CURR_BLK_IDX <= blk_high; CURR_BLK_IDX++) {
-
-        if ((CURR_BLK_IDX * IO_BLOCK_SIZE) > meta.size)
-            break;
+    for (off_t CURR_BLK_IDX = blk_low; res == 0 && CURR_BLK_IDX <= blk_high; CURR_BLK_IDX++) {
 
         blk_readable_from = (CURR_BLK_IDX == blk_low) ? (offset % IO_BLOCK_SIZE) : 0;
 
@@ -1507,29 +1505,23 @@ int LazyFS::lfs_read (const char* path,
         else if (CURR_BLK_IDX == blk_high)
             blk_readable_to = size - data_allocated - 1;
 
-        if (this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX)) {
+        bool is_block_cached = this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX);
 
-            if (last_pread_chunk_size > 0) {
-
-                int pread_res = pread (fd_caching,
-                                       buf + BUF_ITERATOR,
-                                       last_pread_chunk_size,
-                                       last_pread_chunk_offset);
-
-                BUF_ITERATOR += pread_res;
-                BYTES_LEFT -= pread_res;
+        if (is_block_cached) {
 
-                last_pread_chunk_size   = 0;
-                last_pread_chunk_offset = (CURR_BLK_IDX + 1) * IO_BLOCK_SIZE;
+            if (last_pread_chunk_size > 0) {
 
-            } else if (CURR_BLK_IDX < blk_high) {
+                res = pread_zero_filled (fd_caching,
+                                         buf + BUF_ITERATOR,
+                                         last_pread_chunk_size,
+                                         last_pread_chunk_offset);
 
-                last_pread_chunk_offset = (CURR_BLK_IDX + 1) * IO_BLOCK_SIZE;
-            }
+                if (res < 0)
+                    break;
 
-            if (BYTES_LEFT <= 0) {
+                BUF_ITERATOR += last_pread_chunk_size;
 
-                break;
+                last_pread_chunk_size = 0;
             }
 
             /*
@@ -1548,42 +1540,39 @@ int LazyFS::lfs_read (const char* path,
 
                 off_t read_to = std::min (max_readable_offset, blk_readable_to);
 
-                memcpy (buf + BUF_ITERATOR,
-                        read_buffer + blk_readable_from,
-                        (read_to - blk_readable_from) + 1);
+                if (read_to >= blk_readable_from)
+                    memcpy (buf + BUF_ITERATOR,
+                            read_buffer + blk_readable_from,
+                            (read_to - blk_readable_from) + 1);
+                else
+                    read_to = blk_readable_from - 1;
 
                 BUF_ITERATOR += (read_to - blk_readable_from) + 1;
-                BYTES_LEFT -= (read_to - blk_readable_from) + 1;
 
-                if (read_to < (IO_BLOCK_SIZE - 1) && CURR_BLK_IDX < blk_high) {
+                if (read_to < blk_readable_to) {
 
-                    memset (buf + BUF_ITERATOR + read_to, 0, IO_BLOCK_SIZE - read_to);
+                    memset (buf + BUF_ITERATOR, 0, blk_readable_to - read_to);
+                    BUF_ITERATOR += blk_readable_to - read_to;
                 }
 
-                data_allocated += (read_to - blk_readable_from) + 1;
+                data_allocated += (blk_readable_to - blk_readable_from) + 1;
 
             } else {
 
-                // todo: there could be a race condition between checking if the block is cached
-                // todo: and retrieving its data, so either lock the operation or go to the else
-                // todo: case
+                // the block was evicted after checking if it was cached
 
-                // goto try_pread;
+                is_block_cached = false;
             }
+        }
 
-        } else {
-
-            // todo:
-            // try_pread:
+        if (not is_block_cached) {
 
             /*
                 > Block is not cached, cache it first: If it fails, call pread if
                needed.
             */
 
-            bool needs_pread = meta.size > CURR_BLK_IDX * IO_BLOCK_SIZE;
-
-            if (fd_caching > 0) {
+            if (fd_caching >= 0) {
 
                 /*
                     > Calculate readable block offsets:
@@ -1599,38 +1588,42 @@ int LazyFS::lfs_read (const char* path,
 
                 // ----------------------------------------------------------------------------------
 
-                if (needs_pread)
-                    last_pread_chunk_size += blk_readable_to - blk_readable_from + 1;
+                if (last_pread_chunk_size == 0)
+                    last_pread_chunk_offset = CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from;
+
+                last_pread_chunk_size += blk_readable_to - blk_readable_from + 1;
 
             } else {
 
                 // Read failed for this file,
                 // We assume that the file is not reachable
 
-                res = -1;
+                res = -EBADF;
                 break;
             }
         }
     }
 
-    if (last_pread_chunk_size > 0) {
-        int pread_res =
-            pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, last_pread_chunk_offset);
+    if (res == 0 && last_pread_chunk_size > 0) {
 
-        BUF_ITERATOR += pread_res;
-        BYTES_LEFT -= pread_res;
+        res = pread_zero_filled (fd_caching,
+                                 buf + BUF_ITERATOR,
+                                 last_pread_chunk_size,
+                                 last_pread_chunk_offset);
+
+        BUF_ITERATOR += last_pread_chunk_size;
     }
 
     // ---------------------------------------------------------
 
-    res = BUF_ITERATOR;
-
-    if (res == -1)
-        res = -errno;
-
     if (fi == NULL)
         close (fd);
 
+    if (res < 0)
+        return res;
+
+    res = BUF_ITERATOR;
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
-- 
2.43.0


From 1f7ef19e617d000242ea10c0bab75eb8edea647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 19/37] fix: truncate drops the cached blocks after the new
 size, and reports errors

The blocks were looked up by path instead of inode and so were never dropped: their pages stayed
in use and held the old data. The result was an uninitialised variable, a file that was not cached
had its backing file emptied, and extending a file counted as a write of the application for the
injected faults.
---
 lazyfs/src/lazyfs.cpp | 109 ++++++++++++++++--------------------------
 1 file changed, 40 insertions(+), 69 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index bb5e1fb..05c1816 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1816,108 +1816,79 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    if (res < 0)
+        return res;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
 
     bool locked_initial = this_ ()->FSCache->lockItemCheckExists (inode);
 
-    Metadata* previous_metadata;
-
-    if (locked_initial) {
+    // getattr caches the metadata of the file
 
-        previous_metadata = this_ ()->FSCache->get_content_metadata (inode);
+    if (not locked_initial)
+        return -EIO;
 
-        this_ ()->FSCache->unlockItem (inode);
-
-    } else {
+    off_t previous_size = this_ ()->FSCache->get_content_metadata (inode)->size;
 
-        if (fi != NULL)
-            res = ftruncate (fi->fh, 0);
-        else
-            res = truncate (path, 0);
-
-        lfs_getattr (path, &stats, fi);
-        string newino = to_string (stats.st_ino);
-        if (this_ ()->FSCache->lockItemCheckExists (newino)) {
-            previous_metadata = this_ ()->FSCache->get_content_metadata (newino);
-            this_ ()->FSCache->unlockItem (newino);
-            inode = newino;
-        } else
-            return -1;
-    }
+    this_ ()->FSCache->unlockItem (inode);
 
-    bool has_content_cached  = previous_metadata != nullptr;
-    bool behave_as_lfs_write = false;
-
-    if (not has_content_cached) {
-
-        /*
-            If getattr is enabled for every call on read/write/open...the content
-            should be already cached when calling it.
-        */
-
-        behave_as_lfs_write = true;
-    }
-
-    if (has_content_cached && truncate_size == previous_metadata->size) {
-
-        behave_as_lfs_write = false;
-
-        // Since truncate size is the same as the file size, there's nothing to change/truncate.
-    }
-
-    if (has_content_cached && truncate_size > previous_metadata->size) {
-
-        behave_as_lfs_write = true;
-        cout << "***************************** BEHAVE AS " << endl;
-    }
+    bool behave_as_lfs_write = truncate_size > previous_size;
 
     if (behave_as_lfs_write) {
 
         /*
             In this case, cache file data to reach the size to truncate with zeroes.
-            1: Content does not exist? Fill 0 -> size with zeroes
-            2: Content exists? Fill size_before -> size with zeros
+            Fill size_before -> size with zeros
         */
 
-        size_t IO_BLOCK_SIZE        = this_ ()->FSConfig->IO_BLOCK_SIZE;
-        off_t file_size             = has_content_cached ? previous_metadata->size : 0;
-        off_t add_bytes_from_offset = file_size;
+        off_t add_bytes_from_offset = previous_size;
         off_t add_bytes_total       = truncate_size - add_bytes_from_offset;
 
-        char* buf = (char*)malloc (add_bytes_total);
-        memset (buf, 0, add_bytes_total);
+        int fd = fi != NULL ? (int)fi->fh : open (path, O_WRONLY);
+        if (fd == -1)
+            return -errno;
+
+        char* buf = (char*)calloc (add_bytes_total, 1);
+
+        ssize_t r = buf == NULL ? -ENOMEM
+                                : write_content (path,
+                                                 inode,
+                                                 fd,
+                                                 buf,
+                                                 add_bytes_total,
+                                                 add_bytes_from_offset,
+                                                 fi);
+
+        free (buf);
 
-        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
+        if (fi == NULL)
+            close (fd);
 
         if (r != add_bytes_total) {
 
-            int res;
+            // the file keeps its size
 
-            if (fi != NULL)
-                res = ftruncate (fi->fh, truncate_size);
-            else
-                res = truncate (path, truncate_size);
-        }
+            res           = r < 0 ? r : -EIO;
+            truncate_size = previous_size;
 
-        free (buf);
+            this_ ()->FSCache->truncate_item (inode, truncate_size);
+        }
 
-    } else if (truncate_size < previous_metadata->size) {
+    } else if (truncate_size < previous_size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
 
-    if (previous_metadata != nullptr) {
+    {
 
         Metadata new_meta;
         new_meta.size = truncate_size;
@@ -1930,7 +1901,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         new_meta.mtim = modify_time;
         values_to_change.push_back ("mtime");
 
-        if (new_meta.size > previous_metadata->size) {
+        if (new_meta.size > previous_size) {
             new_meta.ctim = modify_time;
             values_to_change.push_back ("ctime");
         }
@@ -1944,8 +1915,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         }
     }
 
-    if (res == -1)
-        return -errno;
+    if (res < 0)
+        return res;
 
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     lock.unlock ();
-- 
2.43.0


From a9a3925395520f74f291e6b91396530fdc8b347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:29 +0000
Subject: [PATCH 20/37] fix: the cache follows the names and links of the
 backing file system

Rename and unlink changed the cache before knowing if they would succeed, renaming a file to
another of its links dropped its unsynced data, link counts of files linked before they were
cached were wrong, so that unlinking one name lost the content or left it to the next file with
that inode number, and stale paths stayed mapped to it.
---
 lazyfs/src/lazyfs.cpp                  | 95 ++++++++++----------------
 libs/libpcache/include/cache/cache.hpp |  4 +-
 libs/libpcache/src/cache.cpp           | 46 ++-----------
 3 files changed, 45 insertions(+), 100 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 05c1816..05a6b76 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -777,13 +777,10 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
     if (not S_ISREG (stbuf->st_mode))
         return 0;
 
-    string inode = this_ ()->FSCache->get_original_inode (content_owner);
+    string inode = to_string (stbuf->st_ino);
 
-    if (inode.empty ()) {
-
-        inode = to_string (stbuf->st_ino);
+    if (this_ ()->FSCache->get_original_inode (content_owner) != inode)
         this_ ()->FSCache->insert_inode_mapping (content_owner, inode, false);
-    }
 
     bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
 
@@ -840,7 +837,6 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
             stbuf->st_ctim.tv_sec  = meta->ctim.tv_sec;
             stbuf->st_mtim.tv_nsec = meta->mtim.tv_nsec;
             stbuf->st_mtim.tv_sec  = meta->mtim.tv_sec;
-            stbuf->st_nlink        = meta->nlinks;
         }
 
         this_ ()->FSCache->unlockItem (inode);
@@ -1711,8 +1707,8 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
 
             if (from_DIRENT->d_type == DT_REG)
                 result->push_back (base_path);
-
-            lfs_get_dir_filenames (base_path.c_str (), result);
+            else if (from_DIRENT->d_type == DT_DIR)
+                lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
 
@@ -1721,43 +1717,16 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
 
 int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
 
-    std::vector<string> from_dir_filepaths;
-    lfs_get_dir_filenames (from, &from_dir_filepaths);
-
-    // Check if destination folder exists
-
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
+    // the directory was renamed: its files are now below 'to'
 
-            goto replace_prepend;
+    std::vector<string> to_dir_filepaths;
+    lfs_get_dir_filenames (to, &to_dir_filepaths);
 
-        } else if (is_empty == 0) {
+    // all 'from' paths should be replaced with the new prepend
 
-            errno = ENOTEMPTY;
+    for (auto const& it : to_dir_filepaths) {
 
-            return -1;
-        }
-
-    } else {
-
-    replace_prepend:
-
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
-
-        for (auto const& it : from_dir_filepaths) {
-
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
+        this_ ()->FSCache->rename_item (string (from + it.substr (string (to).size ())), it);
     }
 
     return 0;
@@ -1780,24 +1749,35 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
         return -EINVAL;
 
     string last_owner (from);
-    string inode = this_ ()->FSCache->get_original_inode (last_owner);
     string new_owner (to);
 
-    if (inode.empty ()) {
+    struct stat from_stat;
+    if (lstat (from, &from_stat) == -1)
+        return -errno;
+
+    struct stat to_stat;
+    bool replaces_file = lstat (to, &to_stat) == 0 && S_ISREG (to_stat.st_mode);
+
+    res = rename (from, to);
 
-        // from: is a dir, because getattr does not cache dirs
+    if (res == -1)
+        return -errno;
+
+    if (S_ISDIR (from_stat.st_mode)) {
 
         lfs_recursive_rename (from, to, flags);
-        res = rename (from, to);
 
-    } else {
+    } else if (not replaces_file || from_stat.st_ino != to_stat.st_ino) {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
-        res = rename (from, to);
-    }
+        // (renaming a file to another of its names does nothing)
 
-    if (res == -1)
-        return -errno;
+        if (replaces_file)
+            this_ ()->FSCache->remove_cached_item (to_string (to_stat.st_ino),
+                                                   to,
+                                                   to_stat.st_nlink <= 1);
+
+        this_ ()->FSCache->rename_item (last_owner, new_owner);
+    }
 
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     lock.unlock ();
@@ -2242,19 +2222,18 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
-    string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
+    struct stat stats;
+    if (lstat (path, &stats) == -1)
+        return -errno;
 
     res = unlink (path);
 
-    if (res == 0 && inode.empty ()) {
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
-    }
-
     if (res == -1)
         return -errno;
 
+    if (S_ISREG (stats.st_mode))
+        this_ ()->FSCache->remove_cached_item (to_string (stats.st_ino), path, stats.st_nlink <= 1);
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 3cbea1d..b1b5901 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -228,11 +228,11 @@ class Cache {
      *
      * @param owner the content id
      * @param path original path name to remove
-     * @param is_from_cache remove comes from a clear cache command
+     * @param is_last_link remove the content too, as no other name of it is left
      * @return true item was removed
      * @return false item does not exist
      */
-    bool remove_cached_item (string owner, const char* path, bool is_from_cache);
+    bool remove_cached_item (string owner, const char* path, bool is_last_link);
 
     /**
      * @brief Syncs a contents data and/or metadata.
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 33b4738..a606681 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -403,56 +403,24 @@ bool Cache::rename_item (string old_cid, string new_cid) {
     if (this->file_inode_mapping.find (old_cid) != this->file_inode_mapping.end ()) {
         string inode = this->file_inode_mapping.at (old_cid);
 
-        string to_remove_inode = "";
-
-        if (this->file_inode_mapping.find (new_cid) != this->file_inode_mapping.end ()) {
-            to_remove_inode = this->file_inode_mapping.at (new_cid);
-        }
-
         this->file_inode_mapping.erase (old_cid);
         this->file_inode_mapping[new_cid] = inode;
 
-        if (has_content_cached (to_remove_inode)) {
-
-            Item* item = _get_content_ptr (to_remove_inode);
-
-            if (item != nullptr) {
-
-                lockItem (to_remove_inode);
-
-                nlink_t before_nlinks = item->get_metadata ()->nlinks;
-
-                Metadata new_meta_after_removal;
-                new_meta_after_removal.nlinks = std::max ((int)before_nlinks - 1, 1);
-                item->update_metadata (new_meta_after_removal, {"nlinks"});
-
-                if (before_nlinks > 1) {
+    } else {
 
-                    unlockItem (to_remove_inode);
-                    return return_val;
-                }
-
-                this->engine->remove_cached_blocks (to_remove_inode);
-                this->_delete_item (to_remove_inode);
-
-                unlockItem (to_remove_inode);
-
-                if (!this->item_locks.empty () &&
-                    (this->item_locks.find (to_remove_inode) != this->item_locks.end ())) {
-                    this->item_locks.erase (to_remove_inode);
-                }
-            }
-        }
+        this->file_inode_mapping.erase (new_cid);
     }
 
     return return_val;
 }
 
-bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cache) {
+bool Cache::remove_cached_item (string owner, const char* path, bool is_last_link) {
 
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
 
+    this->file_inode_mapping.erase (string (path));
+
     if (not has_content_cached (owner)) {
 
         lock.unlock ();
@@ -461,8 +429,6 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    this->file_inode_mapping.erase (string (path));
-
     Item* item = _get_content_ptr (owner);
 
     nlink_t before_nlinks = item->get_metadata ()->nlinks;
@@ -471,7 +437,7 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     new_meta_after_removal.nlinks = std::max ((int)before_nlinks - 1, 1);
     item->update_metadata (new_meta_after_removal, {"nlinks"});
 
-    if (!is_from_cache && before_nlinks > 1) {
+    if (!is_last_link) {
 
         unlockItem (owner);
         lock.unlock ();
-- 
2.43.0


From 59f636be4a0eb9246132cd0e774fc3fe3595348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:06 +0000
Subject: [PATCH 21/37] fix: requests on the same inode exclude each other

Two requests that first touched a file could both create its cached item, the second one
replacing the metadata that a write had updated meanwhile; requests using different hard links of
a file, or a read and a truncate, could interleave block by block; two names of a file removed at
the same time left its cached content behind for whoever got the inode number next.
---
 lazyfs/src/lazyfs.cpp | 128 +++++++++++++++++++++++++++++++++---------
 1 file changed, 103 insertions(+), 25 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 05a6b76..8e06ae1 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -104,6 +104,42 @@ static ssize_t pwrite_full (int fd, const char* buf, size_t size, off_t offset)
     return done;
 }
 
+// Requests that use the content of a file exclude those that change it, whatever the name of the
+// file that each one uses. A lock is acquired after cache_command_lock and before the locks of the
+// cache, and no request holds two of them.
+static std::shared_mutex inode_locks[64];
+
+static std::shared_mutex& inode_lock (ino_t inode) { return inode_locks[inode % 64]; }
+
+// Acquires the lock of the inode that the path refers to, leaving its status in stbuf. Returns 0
+// or -errno, in which case there is no lock.
+static int lock_inode_of (const char* path,
+                          struct stat* stbuf,
+                          std::unique_lock<std::shared_mutex>& lock) {
+
+    if (lstat (path, stbuf) == -1)
+        return -errno;
+
+    while (true) {
+
+        ino_t inode = stbuf->st_ino;
+        lock        = std::unique_lock<std::shared_mutex> (inode_lock (inode));
+
+        if (lstat (path, stbuf) == -1) {
+
+            int error = errno;
+            lock.unlock ();
+            return -error;
+        }
+
+        if (stbuf->st_ino == inode)
+            return 0;
+
+        // the path was replaced before the lock was acquired
+        lock.unlock ();
+    }
+}
+
 /* Write class */
 Write::Write() {
     this->path = this->buf = NULL;
@@ -769,10 +805,12 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
 
     string content_owner (path);
 
-    res = lstat (path, stbuf);
+    std::unique_lock<std::shared_mutex> file_lock;
 
-    if (res == -1)
-        return -errno;
+    res = lock_inode_of (path, stbuf, file_lock);
+
+    if (res < 0)
+        return res;
 
     if (not S_ISREG (stbuf->st_mode))
         return 0;
@@ -904,7 +942,12 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
     fi->fh = res;
 
     struct stat st;
-    lfs_getattr (path, &st, fi);
+    res = lfs_getattr (path, &st, fi);
+
+    if (res < 0) {
+        close (fi->fh);
+        return res;
+    }
 
     // --------------------------------------------------------------------------
 
@@ -960,7 +1003,12 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
     fi->fh = res;
 
     struct stat stbuf;
-    lfs_getattr (path, &stbuf, fi);
+    res = lfs_getattr (path, &stbuf, fi);
+
+    if (res < 0) {
+        close (fi->fh);
+        return res;
+    }
 
     string owner (path);
     string inode = to_string (stbuf.st_ino);
@@ -1046,16 +1094,19 @@ int LazyFS::lfs_write (const char* path,
     if (fd == -1)
         return -errno;
 
-    std::string OWNER (path);
-
     struct stat stats;
 
     res = lfs_getattr (path, &stats, fi);
 
-    string inode = this_ ()->FSCache->get_original_inode (OWNER);
+    string inode;
+    std::unique_lock<std::shared_mutex> file_lock;
+
+    if (res == 0) {
+        inode     = to_string (stats.st_ino);
+        file_lock = std::unique_lock<std::shared_mutex> (inode_lock (stats.st_ino));
 
-    if (res == 0)
         res = write_content (path, inode, fd, buf, size, offset, fi);
+    }
 
     if (res < 0) {
 
@@ -1084,6 +1135,7 @@ int LazyFS::lfs_write (const char* path,
     
 
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
+    file_lock.unlock ();
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
@@ -1427,12 +1479,17 @@ int LazyFS::lfs_read (const char* path,
     if (fd == -1)
         return -errno;
 
-    std::string OWNER (path);
-
     struct stat stats;
     res = lfs_getattr (path, &stats, fi);
 
-    string inode = this_ ()->FSCache->get_original_inode (OWNER);
+    if (res < 0) {
+        if (fi == NULL)
+            close (fd);
+        return res;
+    }
+
+    string inode = to_string (stats.st_ino);
+    std::shared_lock<std::shared_mutex> file_lock (inode_lock (stats.st_ino));
 
     int IO_BLOCK_SIZE = this_ ()->FSConfig->IO_BLOCK_SIZE;
 
@@ -1451,7 +1508,7 @@ int LazyFS::lfs_read (const char* path,
     Metadata meta;
     if (not cache_had_owner) {
 
-        meta.size = res == 0 ? stats.st_size : 0;
+        meta.size = stats.st_size;
 
     } else {
 
@@ -1621,6 +1678,7 @@ int LazyFS::lfs_read (const char* path,
     res = BUF_ITERATOR;
 
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
+    file_lock.unlock ();
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1636,22 +1694,24 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},isdatasync={})", __FUNCTION__, path, isdatasync);
     }
-    
+
+    if (res < 0)
+        return res;
+
+    std::unique_lock<std::shared_mutex> file_lock (inode_lock (stats.st_ino));
+
     this_ ()->restart_counter(path,"write"); //Reset counter of op write for this path
     this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it
 
-    string owner (path);
-    string inode = this_ ()->FSCache->get_original_inode (owner);
+    string inode = to_string (stats.st_ino);
 
     bool is_owner_cached = this_ ()->FSCache->has_content_cached (inode);
 
-    int res;
-
     if (isdatasync)
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path)
                               : (fdatasync (fi->fh) == -1 ? -errno : 0);
@@ -1663,6 +1723,7 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
         return res;
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
+    file_lock.unlock ();
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1755,8 +1816,11 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (lstat (from, &from_stat) == -1)
         return -errno;
 
+    // a file that is replaced loses a name
+
     struct stat to_stat;
-    bool replaces_file = lstat (to, &to_stat) == 0 && S_ISREG (to_stat.st_mode);
+    std::unique_lock<std::shared_mutex> to_lock;
+    bool replaces_file = lock_inode_of (to, &to_stat, to_lock) == 0 && S_ISREG (to_stat.st_mode);
 
     res = rename (from, to);
 
@@ -1779,6 +1843,9 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
         this_ ()->FSCache->rename_item (last_owner, new_owner);
     }
 
+    if (to_lock.owns_lock ())
+        to_lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
@@ -1805,8 +1872,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res < 0)
         return res;
 
-    string owner (path);
-    string inode = this_ ()->FSCache->get_original_inode (owner);
+    string inode = to_string (stats.st_ino);
+    std::unique_lock<std::shared_mutex> file_lock (inode_lock (stats.st_ino));
 
     bool locked_initial = this_ ()->FSCache->lockItemCheckExists (inode);
 
@@ -1899,6 +1966,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         return res;
 
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
+    file_lock.unlock ();
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
@@ -2145,6 +2213,13 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     (void)fi;
     int res;
 
+    struct stat stbuf;
+    std::unique_lock<std::shared_mutex> file_lock;
+
+    res = lock_inode_of (path, &stbuf, file_lock);
+    if (res < 0)
+        return res;
+
     /* don't use utime/utimes since they follow symlinks */
     res = utimensat (0, path, ts, AT_SYMLINK_NOFOLLOW);
     if (res == -1)
@@ -2152,7 +2227,6 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
 
     // cached times override the ones of the underlying file
 
-    struct stat stbuf;
     if (lstat (path, &stbuf) == -1)
         return -errno;
 
@@ -2223,8 +2297,11 @@ int LazyFS::lfs_unlink (const char* path) {
     int res;
 
     struct stat stats;
-    if (lstat (path, &stats) == -1)
-        return -errno;
+    std::unique_lock<std::shared_mutex> file_lock;
+
+    res = lock_inode_of (path, &stats, file_lock);
+    if (res < 0)
+        return res;
 
     res = unlink (path);
 
@@ -2235,6 +2312,7 @@ int LazyFS::lfs_unlink (const char* path) {
         this_ ()->FSCache->remove_cached_item (to_string (stats.st_ino), path, stats.st_nlink <= 1);
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
+    file_lock.unlock ();
     lock.unlock ();
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
-- 
2.43.0


From 4712e242cea43e3570baca0ac0f6d31cdacfbd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:59 +0000
Subject: [PATCH 22/37] fix: rename reports that the replaced file could not be
 looked up

---
 lazyfs/src/lazyfs.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8e06ae1..e1b59b2 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1820,7 +1820,12 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
     struct stat to_stat;
     std::unique_lock<std::shared_mutex> to_lock;
-    bool replaces_file = lock_inode_of (to, &to_stat, to_lock) == 0 && S_ISREG (to_stat.st_mode);
+
+    int to_res = lock_inode_of (to, &to_stat, to_lock);
+    if (to_res < 0 && to_res != -ENOENT)
+        return to_res;
+
+    bool replaces_file = to_res == 0 && S_ISREG (to_stat.st_mode);
 
     res = rename (from, to);
 
-- 
2.43.0


From 1ee3254dd920cb6f87d2826871f331880478db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:13 +0000
Subject: [PATCH 23/37] fix: configured clear faults accept the documented type
 "clear"

---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..fd0d1e0 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -325,7 +325,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                     }
                 }
 
-            } else if (type == CLEAR) {
+            } else if (type == CLEAR || type == "clear") {
                 valid_fault = true;
                 error_msg = "The following errors were found in the configuration file for a fault of type \"clear-cache\": \n";
 
-- 
2.43.0


From a44112be3d34af10b8e426b23769d63894b92d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:52 +0000
Subject: [PATCH 24/37] fix: faults may be armed while requests are running

---
 lazyfs/include/lazyfs/lazyfs.hpp | 13 ++++++++++
 lazyfs/src/lazyfs.cpp            | 42 +++++++++++++++++++++++---------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 700487e..846a9ff 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -16,6 +16,7 @@
 #include <lazyfs/fusepp/Fuse-impl.h>
 #include <lazyfs/fusepp/Fuse.h>
 #include <regex>
+#include <shared_mutex>
 #include <thread>
 #include <vector>
 
@@ -104,6 +105,18 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     unordered_map<string,vector<faults::Fault*>>* faults;
 
+    /**
+     * @brief Lock for the programmed faults: faults may be added during runtime.
+     */
+    std::shared_mutex faults_lock;
+
+    /**
+     * @brief Gets the faults programmed for a path.
+     *
+     * @param path path of the file
+     * @return faults of that path
+     */
+    vector<faults::Fault*> faults_of (const string& path);
 
     /**
      * @brief Faults of LazyFS crash injected during runtime.
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e1b59b2..355b5c7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -191,6 +191,15 @@ vector<string> LazyFS::get_injecting_fault() {
     return injecting_fault;
 }
 
+vector<faults::Fault*> LazyFS::faults_of (const string& path) {
+
+    std::shared_lock<std::shared_mutex> lock (faults_lock);
+
+    auto it = faults->find (path);
+
+    return it != faults->end () ? it->second : vector<faults::Fault*> ();
+}
+
 void LazyFS::trigger_crash_fault (string opname,
                                   string optiming,
                                   string from_op_path,
@@ -212,12 +221,16 @@ void LazyFS::trigger_crash_fault (string opname,
     status = lstat(char_array, &buffer);
 */
 
+    std::shared_lock<std::shared_mutex> lock (faults_lock);
+
     if (optiming == "before") {
         opfaults = this->crash_faults_before_map.at (opname);
     } else {
         opfaults = this->crash_faults_after_map.at (opname);
     }
 
+    lock.unlock ();
+
     if (opfaults.size () > 0) {
 
         bool is_multi_path = false;
@@ -268,10 +281,9 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                                   string from_path,
                                   string to_path) {
 
-    auto it = faults->find(from_path);
+    auto v_faults = faults_of (from_path);
 
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    if (!v_faults.empty ()) {
 
         for (auto fault : v_faults) {
             faults::ClearF* clear_fault = dynamic_cast<faults::ClearF*>(fault);
@@ -319,6 +331,8 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    std::unique_lock<std::shared_mutex> lock (faults_lock);
+
     // operations with two paths may restrict only the 'to' path
     if (crash_regex_from == "none")
         crash_regex_from = "";
@@ -380,6 +394,8 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     bool valid_fault = true;
     if (errors.size() == 0) {
 
+        std::unique_lock<std::shared_mutex> lock (faults_lock);
+
         auto it = faults->find(path);
         if (it == faults->end()) {
             faults->insert({path, {fault}});
@@ -419,6 +435,8 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
 
     bool valid_fault = true;
     if (errors.size() == 0) {
+        std::unique_lock<std::shared_mutex> lock (faults_lock);
+
         auto it = faults->find(path);
         if (it == faults->end())
             faults->insert({path, {fault}});
@@ -555,9 +573,9 @@ void LazyFS::command_checkpoint () {
 }
 
 void LazyFS::restart_counter(string path, string op) {
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = faults_of (path);
+
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op)  {
@@ -586,9 +604,9 @@ bool LazyFS::check_and_delete_pendingwrite(const char* path) {
 
 faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     faults::ReorderF* fault_r = NULL;
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = faults_of (path);
+
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op) {
@@ -683,9 +701,9 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
     int fd;
     bool res = false;
 
-    auto it = faults->find(path_s);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = faults_of (path_s);
+
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) { 
             faults::SplitWriteF* split_fault = dynamic_cast<faults::SplitWriteF*>(fault);
             if (split_fault) {
-- 
2.43.0


From e34abfdedfb5263c77f8ce3df7d26ac9cceadc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:49 +0000
Subject: [PATCH 25/37] fix: a partial write does not cache bytes past the end
 of a shrunk file

---
 lazyfs/src/lazyfs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 355b5c7..5617b5a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1297,6 +1297,11 @@ ssize_t LazyFS::write_content (const char* path,
                                                 block_caching_buffer,
                                                 IO_BLOCK_SIZE,
                                                 CURR_BLK_IDX * IO_BLOCK_SIZE);
+
+                        // The backing file may be longer than the file is now
+
+                        if (pread_res > FILE_SIZE_BEFORE - CURR_BLK_IDX * IO_BLOCK_SIZE)
+                            pread_res = FILE_SIZE_BEFORE - CURR_BLK_IDX * IO_BLOCK_SIZE;
                     }
 
                     if (pread_res < 0) {
-- 
2.43.0


From 09fd8cccee96222bdcb1d215290c918944db7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:49 +0000
Subject: [PATCH 26/37] fix: a torn-seq fault persists the first write of a
 group before the second one reaches the file

---
 lazyfs/include/lazyfs/lazyfs.hpp | 12 ++++++++++++
 lazyfs/src/lazyfs.cpp            | 29 +++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 846a9ff..b11332b 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -49,6 +49,11 @@ class Write {
      */
     off_t offset;
 
+    /**
+     * @brief The number of bytes that were persisted (-1 before the write is persisted or if that failed).
+     */
+    ssize_t persisted = -1;
+
     /**
      * @brief Construct a new Write object.
      */
@@ -251,6 +256,13 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool persist_write(const char* path, const char* buf, size_t size, off_t offset);
 
+    /**
+     * @brief Persists the first write of a group before the second write is made, when a reorder fault for write in the given path has to persist it.
+     * The second write may reach the file by itself (full cache) and must not be overwritten by the first one.
+     * @param path Path of the file
+     */
+    void persist_pending_write(const char* path);
+
     /**
      * @brief Restarts the counter for some operation of a certain path.
      * @param path Path of the file
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5617b5a..e3b16a4 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -618,6 +618,28 @@ faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     return fault_r;
 }
 
+void LazyFS::persist_pending_write(const char* path) {
+    for (auto fault : faults_of (path)) {
+        faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
+
+        if (!reorder_fault || reorder_fault->op != "write" || reorder_fault->counter.load() != 1 ||
+            reorder_fault->group_counter.load() + 1 != reorder_fault->occurrence)
+            continue;
+
+        std::lock_guard<std::mutex> lock (this->write_lock);
+
+        auto pending_it = this->pending_writes.find(path);
+        if (pending_it == this->pending_writes.end())
+            continue;
+
+        Write* pending_write = pending_it->second;
+        int fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+        spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path);
+        pending_write->persisted = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
+        close(fd);
+    }
+}
+
 bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t offset) {
     string path_str(path);
     int pw,fd;
@@ -642,10 +664,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
-                spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
-                close(fd);
+                pw = pending_write->persisted;
 
                 if (pw==pending_write->size) {
                     if ((fault->persist).size()==1) {
@@ -1123,6 +1142,8 @@ int LazyFS::lfs_write (const char* path,
         inode     = to_string (stats.st_ino);
         file_lock = std::unique_lock<std::shared_mutex> (inode_lock (stats.st_ino));
 
+        this_ ()->persist_pending_write (path);
+
         res = write_content (path, inode, fd, buf, size, offset, fi);
     }
 
-- 
2.43.0


From 8bb7467b7baf95193d4147d92fd51a7000a6bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 27/37] fix: the configuration path may contain "-o", and no
 command line argument is dropped

---
 lazyfs/src/main.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 18251bf..c7dc2a6 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -19,6 +19,7 @@
 #include <string>
 #include <thread>
 #include <unistd.h>
+#include <vector>
 
 using namespace lazyfs;
 
@@ -485,18 +486,17 @@ int main (int argc, char* argv[]) {
 
     // Parse command line args
 
-    enum { MAX_ARGS = 10 };
-    int i, new_argc;
-    char* new_argv[MAX_ARGS];
+    std::vector<char*> new_argv;
 
     string config_path;
     bool path_specified = false;
 
-    for (i = 0, new_argc = 0; (i < argc) && (new_argc < MAX_ARGS); i++)
+    for (int i = 0; i < argc; i++)
 
         if (!strcmp (argv[i], "--config-path")) {
 
-            if (strcasestr (argv[i + 1], "-o"))
+            // the path is missing when another option follows
+            if (i + 1 >= argc || !strncmp (argv[i + 1], "-o", 2))
 
                 path_specified = false;
 
@@ -508,7 +508,10 @@ int main (int argc, char* argv[]) {
             }
 
         } else
-            new_argv[new_argc++] = argv[i];
+            new_argv.push_back (argv[i]);
+
+    int new_argc = (int)new_argv.size ();
+    new_argv.push_back (nullptr);
 
     // Use default config path
 
@@ -623,7 +626,7 @@ int main (int argc, char* argv[]) {
 
     // Start LazyFS
 
-    int status = fs.run (new_argc, new_argv);
+    int status = fs.run (new_argc, new_argv.data ());
 
     return status;
 }
-- 
2.43.0


From 288ad0f16cd51f6a2c7cbccbd5ef8b7aacd2c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 28/37] fix: an orderly stop ends the process instead of
 aborting it

---
 lazyfs/src/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index c7dc2a6..4cdf061 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -628,5 +628,15 @@ int main (int argc, char* argv[]) {
 
     int status = fs.run (new_argc, new_argv.data ());
 
+    // The faults worker waits for commands and can not be joined: the process ends without destroying
+    // the objects that it uses.
+
+    if (faults_handler_thread.joinable ()) {
+
+        spdlog::default_logger ()->flush ();
+        fflush (stdout);
+        _exit (status);
+    }
+
     return status;
 }
-- 
2.43.0


From 423f0e1e1bc86693c64f3aeb14385e4e611ea33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:45 +0000
Subject: [PATCH 29/37] fix: log_all_operations also logs opens and creates
 that fail

---
 lazyfs/src/lazyfs.cpp | 68 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e3b16a4..7011fca 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -966,6 +966,23 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
+    int access_mode = fi->flags & O_ACCMODE;
+
+    string access_mode_str = "OTHER";
+
+    if (fi->flags & O_TRUNC)
+        access_mode_str = "O_TRUNC";
+    else if (access_mode == O_WRONLY)
+        access_mode_str = "O_WRONLY";
+    else if (access_mode == O_RDONLY)
+        access_mode_str = "O_RDONLY";
+    else if (access_mode == O_RDWR)
+        access_mode_str = "O_RDWR";
+
+    if (this_ ()->FSConfig->log_all_operations) {
+        spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
+    }
+
     int res;
 
     // the cached content is what O_TRUNC truncates, and writes always come with their offset
@@ -988,23 +1005,6 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     // --------------------------------------------------------------------------
 
-    int access_mode = fi->flags & O_ACCMODE;
-
-    string access_mode_str = "OTHER";
-
-    if (fi->flags & O_TRUNC)
-        access_mode_str = "O_TRUNC";
-    else if (access_mode == O_WRONLY)
-        access_mode_str = "O_WRONLY";
-    else if (access_mode == O_RDONLY)
-        access_mode_str = "O_RDONLY";
-    else if (access_mode == O_RDWR)
-        access_mode_str = "O_RDWR";
-
-    if (this_ ()->FSConfig->log_all_operations) {
-        spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
-    }
-
     lock.unlock ();
 
     if (fi->flags & O_TRUNC) {
@@ -1030,6 +1030,23 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
+    int access_mode = fi->flags & O_ACCMODE;
+
+    string access_mode_str = "OTHER";
+
+    if (fi->flags & O_TRUNC)
+        access_mode_str = "O_TRUNC";
+    else if (access_mode == O_WRONLY)
+        access_mode_str = "O_WRONLY";
+    else if (access_mode == O_RDONLY)
+        access_mode_str = "O_RDONLY";
+    else if (access_mode == O_RDWR)
+        access_mode_str = "O_RDWR";
+
+    if (this_ ()->FSConfig->log_all_operations) {
+        spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
+    }
+
     int res;
 
     res = open (path, fi->flags & ~O_APPEND, mode);
@@ -1050,23 +1067,6 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
     string owner (path);
     string inode = to_string (stbuf.st_ino);
 
-    int access_mode = fi->flags & O_ACCMODE;
-
-    string access_mode_str = "OTHER";
-
-    if (fi->flags & O_TRUNC)
-        access_mode_str = "O_TRUNC";
-    else if (access_mode == O_WRONLY)
-        access_mode_str = "O_WRONLY";
-    else if (access_mode == O_RDONLY)
-        access_mode_str = "O_RDONLY";
-    else if (access_mode == O_RDWR)
-        access_mode_str = "O_RDWR";
-
-    if (this_ ()->FSConfig->log_all_operations) {
-        spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
-    }
-
     struct timespec time_register;
     clock_gettime (CLOCK_REALTIME, &time_register);
     Metadata meta;
-- 
2.43.0


From 88d8f41f3383bebe30064c8ae1eed8b030d314f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 30/37] fix: look up a page's cached state under the engine's
 lock

CustomCacheEngine::is_block_cached searched the page tables without the lock while other
threads insert and evict pages.
---
 libs/libpcache/src/engine/backends/custom/custom_cache.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 41f8e3e..66909ca 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -242,6 +242,8 @@ void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_pa
 
 bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {
 
+    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);
+
     Page* p = _get_page_ptr (page_id);
 
     if (p == nullptr)
-- 
2.43.0


From 38f0c867ff176f6d4f72cf8f8ee1b8757130f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 31/37] fix: take each item's lock while reporting unsynced
 data

The sync flag was read while another thread's write was changing it.
---
 libs/libpcache/src/cache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index a606681..5e9958f 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -534,10 +534,15 @@ Cache::report_unsynced_data () {
     std::vector<tuple<string, size_t, vector<tuple<int, pair<int, int>, int>>>> unsynced_data;
 
     for (auto const& it : this->contents) {
+
+        lockItem (it.first);
+
         if (not it.second->is_synced ()) {
             unsynced_data.push_back (
                 std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
         }
+
+        unlockItem (it.first);
     }
 
     return unsynced_data;
-- 
2.43.0


From 8cbc81041dbb707320069319d4254156dfba726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 32/37] fix: update the link count of a cached item under its
 lock

---
 libs/libpcache/src/cache.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 5e9958f..4ea055f 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -83,13 +83,15 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
     lock_guard<std::shared_mutex> lock (lock_cache_mtx);
     this->file_inode_mapping[path] = inode;
 
-    if (increase) {
-        Metadata* oldmeta = get_content_metadata (inode);
+    if (increase && has_content_cached (inode)) {
+
+        lockItem (inode);
+
         Metadata newmeta;
-        if (oldmeta != nullptr) {
-            newmeta.nlinks = oldmeta->nlinks + 1;
-            this->update_content_metadata (inode, newmeta, {"nlinks"});
-        }
+        newmeta.nlinks = get_content_metadata (inode)->nlinks + 1;
+        this->update_content_metadata (inode, newmeta, {"nlinks"});
+
+        unlockItem (inode);
     }
 }
 
-- 
2.43.0


From 92f35cfe9a307d1c6c71628adff4cd350fa413ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 33/37] fix: a block evicted just after a read copied it is not
 read as a hole

get_data_blocks asked the engine once more whether a block was cached when computing how much of
it is readable; a page evicted in between made the data already copied count as zero bytes.
---
 libs/libpcache/include/cache/cache.hpp | 10 ----------
 libs/libpcache/src/cache.cpp           | 27 ++++++++++----------------
 2 files changed, 10 insertions(+), 27 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index b1b5901..c8f3f74 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -79,16 +79,6 @@ class Cache {
      */
     Item* _get_content_ptr (string cid);
 
-    /**
-     * @brief Gets the readable offsets associated with an Item block
-     *
-     * @param cid the content id
-     * @param item the Item reference
-     * @param blk the block id
-     * @return pair<int, int> the pair of block readable offsets
-     */
-    pair<int, int> _get_readable_offsets (string cid, Item* item, int blk);
-
   public:
     /**
      * @brief Construct a new Cache object
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 4ea055f..742f86c 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -164,20 +164,6 @@ void Cache::lockItem (string cid) { item_locks[cid]->lock (); }
 
 void Cache::unlockItem (string cid) { item_locks[cid]->unlock (); }
 
-pair<int, int> Cache::_get_readable_offsets (string cid, Item* item, int blk_id) {
-
-    auto const& data = item->get_data ();
-
-    int page = data->get_page_id (blk_id);
-
-    if (this->engine->is_block_cached (cid, page, blk_id)) {
-
-        return item->get_data ()->_get_readable_offsets (blk_id);
-    }
-
-    return pair<int, int> (0, 0);
-}
-
 // returns: map<block_id, was_allocated>
 map<int, bool> Cache::put_data_blocks (string cid,
                                        map<int, tuple<const char*, size_t, int, int>> blocks,
@@ -288,10 +274,17 @@ map<int, pair<bool, pair<int, int>>> Cache::get_data_blocks (string cid, map<int
     map<int, pair<bool, pair<int, int>>> cache_res;
 
     for (auto const& it : res) {
-        if (it.second == false)
+
+        // the block may be evicted from now on, but its data was already copied
+
+        pair<int, int> readable_offsets (0, 0);
+
+        if (it.second)
+            readable_offsets = item->get_data ()->_get_readable_offsets (it.first);
+        else
             item->get_data ()->remove_block (it.first);
-        cache_res.insert (
-            {it.first, std::make_pair (it.second, _get_readable_offsets (cid, item, it.first))});
+
+        cache_res.insert ({it.first, std::make_pair (it.second, readable_offsets)});
     }
 
     unlockItem (cid);
-- 
2.43.0


From 668531422712526c6fceacba1b228f88ad4de7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 34/37] fix: the maps of cached items and their locks are not
 searched while another thread changes them

unlockItem, has_content_cached and the item lookups ran with only the item locked, while other
threads insert and remove items under lock_cache_mtx: rehashing made the lookups undefined.
---
 libs/libpcache/include/cache/cache.hpp | 21 +++++++++++
 libs/libpcache/src/cache.cpp           | 52 ++++++++++++++++++--------
 2 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index c8f3f74..2207072 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -65,6 +65,12 @@ class Cache {
      *
      */
     unordered_map<string, std::shared_mutex*> item_locks;
+    /**
+     * @brief Protects the structure of contents and item_locks, which are also looked up while an
+     *        item is locked and lock_cache_mtx is not. No other lock is taken while holding it.
+     *
+     */
+    std::shared_mutex item_maps_mtx;
     /**
      * @brief Cache engine abstraction object
      *
@@ -79,6 +85,21 @@ class Cache {
      */
     Item* _get_content_ptr (string cid);
 
+    /**
+     * @brief Gets the lock of an item
+     *
+     * @param cid the content id
+     * @return std::shared_mutex* the lock
+     */
+    std::shared_mutex* _get_item_lock (string cid);
+
+    /**
+     * @brief Forgets the lock of an item
+     *
+     * @param cid the content id
+     */
+    void _erase_item_lock (string cid);
+
   public:
     /**
      * @brief Construct a new Cache object
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 742f86c..451ef8e 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -97,6 +97,8 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
 bool Cache::has_content_cached (string cid) {
 
+    std::shared_lock<shared_mutex> lock (item_maps_mtx);
+
     if (not this->contents.empty ())
         return this->contents.find (cid) != this->contents.end ();
     return false;
@@ -104,10 +106,25 @@ bool Cache::has_content_cached (string cid) {
 
 Item* Cache::_get_content_ptr (string cid) {
 
-    if (has_content_cached (cid))
-        return this->contents.at (cid);
+    std::shared_lock<shared_mutex> lock (item_maps_mtx);
+
+    auto const& it = this->contents.find (cid);
+
+    return it != this->contents.end () ? it->second : nullptr;
+}
+
+std::shared_mutex* Cache::_get_item_lock (string cid) {
+
+    std::shared_lock<shared_mutex> lock (item_maps_mtx);
+
+    return this->item_locks.at (cid);
+}
+
+void Cache::_erase_item_lock (string cid) {
+
+    std::unique_lock<shared_mutex> lock (item_maps_mtx);
 
-    return nullptr;
+    this->item_locks.erase (cid);
 }
 
 bool Cache::is_block_cached (string cid, int blk_id) {
@@ -116,9 +133,11 @@ bool Cache::is_block_cached (string cid, int blk_id) {
 
     bool is_cached = false;
 
-    if (has_content_cached (cid)) {
+    Item* item = _get_content_ptr (cid);
+
+    if (item != nullptr) {
 
-        int page  = this->contents.at (cid)->get_data ()->get_page_id (blk_id);
+        int page  = item->get_data ()->get_page_id (blk_id);
         is_cached = this->engine->is_block_cached (cid, page, blk_id);
     }
 
@@ -154,15 +173,17 @@ Item* Cache::_create_item (string cid) {
 
     Item* cid_item = new Item ();
 
+    std::unique_lock<shared_mutex> lock (item_maps_mtx);
+
     this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
     this->contents.insert (make_pair (cid, cid_item));
 
     return cid_item;
 }
 
-void Cache::lockItem (string cid) { item_locks[cid]->lock (); }
+void Cache::lockItem (string cid) { _get_item_lock (cid)->lock (); }
 
-void Cache::unlockItem (string cid) { item_locks[cid]->unlock (); }
+void Cache::unlockItem (string cid) { _get_item_lock (cid)->unlock (); }
 
 // returns: map<block_id, was_allocated>
 map<int, bool> Cache::put_data_blocks (string cid,
@@ -295,9 +316,13 @@ bool Cache::_delete_item (string cid) {
 
     Item* item = _get_content_ptr (cid);
     if (item != nullptr) {
-        delete item;
 
-        this->contents.erase (cid);
+        {
+            std::unique_lock<shared_mutex> lock (item_maps_mtx);
+            this->contents.erase (cid);
+        }
+
+        delete item;
     }
 
     return true;
@@ -444,9 +469,7 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_last_lin
 
     unlockItem (owner);
 
-    if (!this->item_locks.empty () && (this->item_locks.find (owner) != this->item_locks.end ())) {
-        this->item_locks.erase (owner);
-    }
+    _erase_item_lock (owner);
 
     lock.unlock ();
 
@@ -488,10 +511,7 @@ void Cache::clear_all_cache () {
 
             unlockItem (it);
 
-            if (!this->item_locks.empty () &&
-                (this->item_locks.find (it) != this->item_locks.end ())) {
-                this->item_locks.erase (it);
-            }
+            _erase_item_lock (it);
         }
 
         lock.unlock ();
-- 
2.43.0


From f0b40767d6441494440a3d31e200d9e395bce67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 35/37] fix: torn-op faults on writes beyond 2 GiB kept their
 offsets in ints: they never fired or wrote elsewhere

---
 lazyfs/src/lazyfs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 7011fca..3075c53 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -734,7 +734,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                 split_fault->counter.fetch_add(1);
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
-                    vector<tuple<int,int,int>> persist_info; 
+                    vector<tuple<int,size_t,off_t>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
                     size_t size_to_persist;
@@ -761,7 +761,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 off_to_persist = offset + buf_i;
                             }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
+                            tuple <int,size_t,off_t> info_part (buf_i,size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                         }
                         
@@ -781,7 +781,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 final_size_to_persist += extra_size_to_persist;
                             }
                             
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
+                            tuple <int,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                          }
                     }
-- 
2.43.0


From 28c9cf5a345f009d935db837ca64e3eabcb989ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:12 +0000
Subject: [PATCH 36/37] fix: writes and truncates that do not extend a file
 left its change time behind

---
 lazyfs/src/lazyfs.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3075c53..f25b51c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1480,11 +1480,8 @@ ssize_t LazyFS::write_content (const char* path,
             meta.mtim = modify_time;
             values_to_change.push_back ("mtime");
 
-            if (meta.size > FILE_SIZE_BEFORE) {
-
-                meta.ctim = modify_time;
-                values_to_change.push_back ("ctime");
-            }
+            meta.ctim = modify_time;
+            values_to_change.push_back ("ctime");
 
             this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);
 
@@ -1997,10 +1994,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         new_meta.mtim = modify_time;
         values_to_change.push_back ("mtime");
 
-        if (new_meta.size > previous_size) {
-            new_meta.ctim = modify_time;
-            values_to_change.push_back ("ctime");
-        }
+        new_meta.ctim = modify_time;
+        values_to_change.push_back ("ctime");
 
         bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
 
-- 
2.43.0


From 6d49e8ffa148cbf0d7c50918f49b51acb84f3707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:12 +0000
Subject: [PATCH 37/37] fix: after a directory was renamed, checkpoints lost
 its files on file systems that do not report entry types

---
 lazyfs/src/lazyfs.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f25b51c..b7cf841 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1807,9 +1807,16 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
 
             string base_path = string (string (dirname) + "/" + string (from_DIRENT->d_name));
 
-            if (from_DIRENT->d_type == DT_REG)
+            // not every file system reports the type of its entries
+
+            unsigned char type = from_DIRENT->d_type;
+            struct stat entry_stat;
+            if (type == DT_UNKNOWN && lstat (base_path.c_str (), &entry_stat) == 0)
+                type = IFTODT (entry_stat.st_mode);
+
+            if (type == DT_REG)
                 result->push_back (base_path);
-            else if (from_DIRENT->d_type == DT_DIR)
+            else if (type == DT_DIR)
                 lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
-- 
2.43.0

