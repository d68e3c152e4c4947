From d49190e8b0ccf61152f5381f82b70424733a5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:25 +0000
Subject: [PATCH 1/2] fix: unexaminable security files must not make
 get_security_files throw

---
 rmw_dds_common/src/security.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index c480d1a..61c31e8 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <functional>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <unordered_map>
 #include <vector>
@@ -32,7 +33,8 @@ static bool process_file_uri_security_file(
   const std::filesystem::path & full_path,
   std::string & result)
 {
-  if (!std::filesystem::is_regular_file(full_path)) {
+  std::error_code ec;  // a path that cannot be examined is not usable, it is not an error
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
     return false;
   }
   result = prefix + full_path.generic_string();
@@ -139,7 +141,8 @@ bool get_security_files(
   for (const std::pair<const std::string, std::string> & el : optional_files) {
     std::filesystem::path full_path(secure_root);
     full_path /= el.second;
-    if (std::filesystem::is_regular_file(full_path)) {
+    std::error_code ec;
+    if (std::filesystem::is_regular_file(full_path, ec)) {
       result[el.first] = prefix + full_path.generic_string();
     }
   }
-- 
2.43.0


From 839ef9339cf6d4ea9880b75b98331b23cddd82bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 2/2] fix: roll back the node that add_node_graph added, not an
 earlier one with the same name

---
 rmw_dds_common/src/context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rmw_dds_common/src/context.cpp b/rmw_dds_common/src/context.cpp
index a6f8b16..571db51 100644
--- a/rmw_dds_common/src/context.cpp
+++ b/rmw_dds_common/src/context.cpp
@@ -45,7 +45,10 @@ rmw_ret_t Context::add_node_graph(
     graph_cache.add_node(gid, name, namespace_);
 
   if (!call_publish_callback(pub, publish_callback, msg)) {
-    graph_cache.remove_node(gid, name, namespace_);
+    // Undo by dropping the node appended above: remove_node() would remove the first node with
+    // this name and namespace, which is another one if the name was already taken.
+    msg.node_entities_info_seq.pop_back();
+    graph_cache.update_participant_entities(msg);
     return RMW_RET_ERROR;
   }
 
-- 
2.43.0

