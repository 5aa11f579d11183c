From 282afa188bdf4ca89ddc5139d2eb447aac453519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 1/2] fix: do not throw from get_security_files() on
 file-system errors

std::filesystem::is_regular_file(path) throws filesystem_error when the file
cannot be examined (no search permission, symbolic link loop, over-long name),
which left the caller with a partially filled result. Use the error_code
overload, so such a file counts as not usable.
---
 rmw_dds_common/src/security.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index c480d1a..f8c0c32 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <functional>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <unordered_map>
 #include <vector>
@@ -32,7 +33,8 @@ static bool process_file_uri_security_file(
   const std::filesystem::path & full_path,
   std::string & result)
 {
-  if (!std::filesystem::is_regular_file(full_path)) {
+  std::error_code ec;
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
     return false;
   }
   result = prefix + full_path.generic_string();
@@ -139,7 +141,8 @@ bool get_security_files(
   for (const std::pair<const std::string, std::string> & el : optional_files) {
     std::filesystem::path full_path(secure_root);
     full_path /= el.second;
-    if (std::filesystem::is_regular_file(full_path)) {
+    std::error_code ec;
+    if (std::filesystem::is_regular_file(full_path, ec)) {
       result[el.first] = prefix + full_path.generic_string();
     }
   }
-- 
2.43.0


From c36e41aaa7efbbc51e2707c2efe505ad8ccaa017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 2/2] fix: roll back exactly the added node when its
 announcement cannot be published

With a second node of the same name and namespace in the context, removing
by name took the older node and its endpoints out of the local graph and
left the failed one in it.
---
 rmw_dds_common/src/context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rmw_dds_common/src/context.cpp b/rmw_dds_common/src/context.cpp
index a6f8b16..89eaf5b 100644
--- a/rmw_dds_common/src/context.cpp
+++ b/rmw_dds_common/src/context.cpp
@@ -45,7 +45,10 @@ rmw_ret_t Context::add_node_graph(
     graph_cache.add_node(gid, name, namespace_);
 
   if (!call_publish_callback(pub, publish_callback, msg)) {
-    graph_cache.remove_node(gid, name, namespace_);
+    // Undo the addition of exactly this node, the last one of the message.
+    // Removing it by name would take an older node with the same name and namespace away instead.
+    msg.node_entities_info_seq.pop_back();
+    graph_cache.update_participant_entities(msg);
     return RMW_RET_ERROR;
   }
 
-- 
2.43.0

