From ee211ea6edcafd5108ec2a5670a9044f978e55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 01/36] fix: do not shrink a merged readahead request to a
 contained region

---
 preload-src/src/handling/readahead.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..f12688b 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -310,8 +310,9 @@ preload_readahead (preload_map_t **files, int file_count)
 	  offset + length >= files[i]->offset &&
 	  0 == strcmp (path, files[i]->path))
         {
-	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  /* merge requests (the next one may end inside the current one) */
+	  if (files[i]->offset + files[i]->length > offset + length)
+	    length = files[i]->offset + files[i]->length - offset;
 	  continue;
 	}
 
-- 
2.43.0


From 514588a7d35a241ad0a320d1d136c7c7630b9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 02/36] fix: do not wait forever for readahead children that
 are already gone

---
 preload-src/src/handling/readahead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index f12688b..990d883 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -118,6 +118,8 @@ wait_for_children (void)
       int status;
       if (wait (&status) > 0)
 	procs--;
+      else if (errno != EINTR)
+	procs = 0; /* no children left to wait for */
     }
 }
 
-- 
2.43.0


From 7cee1270273455014eb39c91a5be12d5018c9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 03/36] fix: do not overwrite the disk block with the inode
 when sorting by block

---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 990d883..a2e3478 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,7 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
-- 
2.43.0


From be14633c555374d23571a1246f4297c0172fc8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 04/36] fix: do not replace the state file when flushing the
 new one failed

---
 preload-src/src/handling/state_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..20f5bed 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -669,6 +669,13 @@ preload_state_write_file (const char *statefile)
 
   f = g_io_channel_unix_new (fd);
   errmsg = write_state (f);
+  if (!errmsg) {
+    /* the last buffer is written here: its errors count, too */
+    GError *err = NULL;
+    if (G_IO_STATUS_NORMAL != g_io_channel_flush (f, &err))
+      errmsg = g_strdup (err ? err->message : "cannot flush state");
+    g_clear_error (&err);
+  }
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From 3cc6faae16092de09c7851b0aaaed4736cf69e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 05/36] fix: sync the new state file before it replaces the old
 one

---
 preload-src/src/handling/state_io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 20f5bed..65f3e98 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -676,6 +676,9 @@ preload_state_write_file (const char *statefile)
       errmsg = g_strdup (err ? err->message : "cannot flush state");
     g_clear_error (&err);
   }
+  /* on disk before it replaces the old one */
+  if (!errmsg && 0 > fsync (fd))
+    errmsg = g_strdup_printf ("cannot sync %s: %s", tmpfile, strerror (errno));
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From 4c520b76d40565e57a20a7b13430688d6036229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 06/36] fix: save what a model update learned after a save in
 mid-cycle

---
 preload-src/src/handling/state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..0912e40 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -183,6 +183,8 @@ preload_state_tick2 (gpointer data)
     g_debug ("state updating begin");
     preload_spy_update_model (data);
     state->model_dirty = FALSE;
+    /* a save since the scan has not seen this update */
+    state->dirty = TRUE;
     g_debug ("state updating end");
   }
 
-- 
2.43.0


From 52f5be9ed258b70d9816c4cdb6928deac064fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 07/36] fix: drop launch-tree references to an exe that is
 removed from the model

---
 preload-src/src/algorithm/vomm.c | 32 ++++++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  3 +++
 preload-src/src/handling/exe.c   |  2 ++
 3 files changed, 37 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..5bf77db 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -153,6 +153,38 @@ void vomm_update(preload_exe_t *exe) {
     }
 }
 
+/* Drop the nodes of an executable, with everything below them */
+static void vomm_node_forget_exe(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer key, value;
+
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, &key, &value)) {
+        vomm_node_t *child = (vomm_node_t*)value;
+        if (child->exe == exe)
+            g_hash_table_iter_remove(&iter);
+        else
+            vomm_node_forget_exe(child, exe);
+    }
+}
+
+/* An executable is going away: keep no reference to it */
+void vomm_forget_exe(preload_exe_t *exe) {
+    vomm_node_t *node;
+
+    if (!exe || !vomm_system.root) return;
+
+    for (node = vomm_system.current_context; node; node = node->parent)
+        if (node->exe == exe) {
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    vomm_node_forget_exe(vomm_system.root, exe);
+
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+}
+
 /* PPM Prediction Logic */
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..cc92108 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -32,6 +32,9 @@ void vomm_cleanup(void);
  */
 void vomm_update(preload_exe_t *exe);
 
+/* Drops every reference to an executable that is about to be freed. */
+void vomm_forget_exe(preload_exe_t *exe);
+
 /* 
  * Predicts the next likely files to be needed based on the current context.
  * Uses Hybrid approach:
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..4b9c661 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,7 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -179,6 +180,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
   g_return_if_fail (g_hash_table_lookup (state->exes, exe->path));
 
   g_hash_table_steal (state->exes, exe->path);
+  vomm_forget_exe (exe);
 
   preload_exe_free (exe);
 }
-- 
2.43.0


From d35b075dd5f8b020e1218ddc44dd2e0d34bb98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 08/36] fix: drop pending changes of an exe that is removed
 before the model update

---
 preload-src/src/handling/exe.c   | 2 ++
 preload-src/src/monitoring/spy.c | 8 ++++++++
 preload-src/src/monitoring/spy.h | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 4b9c661..e68912e 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -27,6 +27,7 @@
 #include "markov.h"
 #include "state.h"
 #include "vomm.h"
+#include "spy.h"
 
 
 /* Check if executable is currently running */
@@ -181,6 +182,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
 
   g_hash_table_steal (state->exes, exe->path);
   vomm_forget_exe (exe);
+  preload_spy_forget_exe (exe);
 
   preload_exe_free (exe);
 }
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..7a82052 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -191,6 +191,14 @@ preload_spy_scan (gpointer data)
   new_running_exes = NULL;  /* Break alias to prevent use-after-free on next scan */
 }
 
+/* an exe is removed from the model between scan and update_model */
+void
+preload_spy_forget_exe (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+  new_running_exes = g_slist_remove_all (new_running_exes, exe);
+}
+
 /* update_model is run after scan, after some delay (half a cycle) */
 
 void
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..e0082ba 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -1,9 +1,12 @@
 #ifndef SPY_H
 #define SPY_H
 
+#include "exe.h"
+
 #include <glib.h>
 
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
+void preload_spy_forget_exe (preload_exe_t *exe);
 
 #endif
-- 
2.43.0


From f97d4bfa7dd6170694e99d3065ad34b3c19afdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 09/36] fix: keep the launch tree loaded from the state file

---
 preload-src/src/algorithm/vomm.c | 6 ++++++
 preload-src/src/handling/state.c | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 5bf77db..c597470 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -58,6 +58,9 @@ static void vomm_node_free(gpointer data) {
 }
 
 gboolean vomm_init(void) {
+    /* keep a tree imported from the state file */
+    if (vomm_system.root) return TRUE;
+
     g_debug("[VOMM] Initializing Algorithm...");
     /* Root represents the empty context */
     vomm_system.root = vomm_node_new(NULL, NULL);
@@ -371,6 +374,9 @@ void vomm_predict(void) {
  */
 void vomm_hydrate_from_state(void) {
     if (!vomm_system.root) return;
+
+    /* a tree imported from the state file needs no seed */
+    if (g_hash_table_size(vomm_system.root->children) > 0) return;
     
     g_debug("[VOMM] Hydrating from legacy Markov state...");
     int hydrated_count = 0;
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 0912e40..4542887 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -248,7 +248,7 @@ preload_state_run (const char *statefile)
       if (!vomm_init()) {
           g_warning("Failed to initialize VOMM algorithm");
       } else {
-          /* VOMM starts empty; hydrate it from the loaded legacy state */
+          /* If no tree was loaded, hydrate it from the loaded legacy state */
           vomm_hydrate_from_state();
       }
   }
-- 
2.43.0


From 078dd7d998fc340496497a722fa309ab505fb442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 10/36] fix: limit the depth of the launch tree as documented

---
 preload-src/src/algorithm/vomm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index c597470..f47bdec 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -116,7 +116,10 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    int depth = 0;
+    for (vomm_node_t *node = vomm_system.current_context; node && node->parent; node = node->parent)
+        depth++;
+    if (!vomm_system.current_context || depth >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
-- 
2.43.0


From b84d5326f3cbaf0622c5e0afd14b78844b412abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:31 +0000
Subject: [PATCH 11/36] fix: bid for, not against, the launches the tree
 predicts

---
 preload-src/src/algorithm/vomm.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index f47bdec..de7cb4f 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -224,11 +224,11 @@ static void predict_ppm(vomm_node_t *node) {
         
         double child_conf = (double)child->count / total_children_calls;
         
-        /* Clamp child_conf to a safe range to avoid log(0) */
-        const double epsilon = 1e-9;
-        child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
+        /* Cap child_conf to avoid log(0) */
+        child_conf = fmax(0.0, fmin(0.99, child_conf));
         
-        child->exe->lnprob += log(child_conf);
+        /* lnprob is the log-probability of NOT being needed */
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
@@ -253,8 +253,8 @@ static void predict_dg_fallback(vomm_node_t *node) {
         if (child->count > 0) {
              /* Weak bid for all neighbors */
              /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             child->exe->lnprob += log(1.0 - 0.1);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.0 - 0.1));
         }
     }
 }
-- 
2.43.0


From 3f7cf94b61de248f38f29fed261590e4a910ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 12/36] fix: read back the long file names the state file may
 hold

---
 preload-src/src/handling/state_io.c | 8 ++++----
 preload-src/src/utils/common.h      | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 65f3e98..32fa146 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -60,7 +60,7 @@ typedef struct _read_context_t
   GHashTable *exes;
   gpointer data;
   GError *err;
-  char filebuf[FILELEN];
+  char filebuf[URILEN];
 } read_context_t;
 
 
@@ -77,7 +77,7 @@ read_map (read_context_t *rc)
   long long t_update_time;
 
   if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"URILENSTR"s",
 		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -123,7 +123,7 @@ read_badexe (read_context_t *rc)
   return;
 
   if (3 > sscanf (rc->line,
-		  "%d %d %"FILELENSTR"s",
+		  "%d %d %"URILENSTR"s",
 		  &size, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -154,7 +154,7 @@ read_exe (read_context_t *rc)
   long long t_update_time, t_time;
 
   if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lld %d %"URILENSTR"s",
 		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
diff --git a/preload-src/src/utils/common.h b/preload-src/src/utils/common.h
index 683148a..a8bd000 100644
--- a/preload-src/src/utils/common.h
+++ b/preload-src/src/utils/common.h
@@ -26,4 +26,8 @@
 #define FILELEN 512
 #define FILELENSTR "511"
 
+/* a path of up to FILELEN - 1 bytes as a URI, every byte of it escaped */
+#define URILEN 1600
+#define URILENSTR "1599"
+
 #endif
-- 
2.43.0


From 24c18e8d733d247d62547015ee3546e696492c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 13/36] fix: take file names in memory maps whole, with blanks
 and deletion marks

---
 preload-src/src/monitoring/proc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..48cc2d4 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -107,14 +107,14 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
   
   while (fgets (buffer, sizeof (buffer) - 1, in))
     {
-      char file[FILELEN] = {0};
+      char file[FILELEN + 1] = {0};
       long start = 0, end = 0, offset = 0, length = 0;
       int count;
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %512[^\n]",
 		      &start, &end, &offset, file);
 
-      if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
+      if (count != 4 || strlen (file) >= FILELEN /* name didn't fit */ || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
         continue;
 
       length = end - start;
-- 
2.43.0


From 404e23b603758957695661c1530e7af61d57fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 14/36] fix: refuse a chain of an exe with itself or a second
 chain of a pair in the state file

---
 preload-src/src/handling/state_io.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 32fa146..b995d37 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -236,10 +236,17 @@ read_markov (read_context_t *rc)
 
   a = g_hash_table_lookup (rc->exes, (gpointer)ia);
   b = g_hash_table_lookup (rc->exes, (gpointer)ib);
-  if (!a || !b) {
+  if (!a || !b || a == b) {
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
+  for (n = 0; n < (int)a->markovs->len; n++) {
+    markov = g_ptr_array_index (a->markovs, n);
+    if (markov_other_exe (markov, a) == b) {
+      rc->errmsg = READ_DUPLICATE_OBJECT_ERROR;
+      return;
+    }
+  }
 
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
-- 
2.43.0


From 8399608d41b43e4e36833eb5ecadaddf1f35fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 15/36] fix: do not free launch-tree nodes still needed while
 loading duplicates

---
 preload-src/src/algorithm/vomm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index de7cb4f..a843e66 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -530,6 +530,12 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (g_hash_table_lookup(parent_node->children, exe->path)
+        || g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)id))) {
+        g_warning("[VOMM] Node id=%" G_GINT64_FORMAT " is a duplicate. Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
-- 
2.43.0


From 2e68c2abe8118773e765feeaabbf3cf830ae9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 16/36] fix: list an exe running at start-up once, however many
 processes it has

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 4542887..9caff05 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -59,7 +59,7 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   preload_exe_t *exe;
 
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  if (exe && exe->running_timestamp < time) { /* once, not for every process */
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
     
-- 
2.43.0


From b13edba1a9d71db2b4810cb3d0104dc4c9d06fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 17/36] fix: honour the documented configuration key
 system.processes

---
 preload-src/src/config/conf.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..5420c66 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -93,6 +93,22 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  e = NULL; \
 	}
 #include "confkeys.h"
+      /* maxprocs is documented as "processes" */
+      if (!g_key_file_has_key (f, "system", "maxprocs", NULL))
+	{
+	  int procs = g_key_file_get_integer (f, "system", "processes", &e);
+	  if (!e)
+	    newconf.system.maxprocs = procs;
+	  else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) {
+	    g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s",
+		   "system", "processes", e->message);
+	    g_error_free (e);
+	    return;
+	  } else {
+	    g_error_free (e);
+	    e = NULL;
+	  }
+	}
 #undef confkey
 
       g_key_file_free (f);
-- 
2.43.0


From e993e812d31f5c433eaa8a1da5c57d8f5e380cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 18/36] fix: start the stay in a chain's state when its state
 file is loaded

---
 preload-src/src/algorithm/markov.c | 6 ++----
 preload-src/src/handling/state.c   | 1 +
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..734ce59 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -87,13 +87,11 @@ preload_markov_state_changed (preload_markov_t *markov)
 {
   int old_state, new_state;
 
-  if (markov->change_timestamp == state->time)
-    return; /* already taken care of */
-
   old_state = markov->state;
   new_state = markov_compute_state (markov);
 
-  g_return_if_fail (old_state != new_state);
+  if (old_state == new_state)
+    return; /* already taken care of */
 
   markov->weight[old_state][old_state]++;
   markov->time_to_leave[old_state] += ((state->time - markov->change_timestamp)
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 9caff05..140410f 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -46,6 +46,7 @@ update_markov_state_callback (gpointer data, gpointer G_GNUC_UNUSED user_data)
 {
   preload_markov_t *markov = (preload_markov_t *)data;
   markov->state = markov_compute_state (markov);
+  markov->change_timestamp = state->time;
 }
 
 static void
-- 
2.43.0


From 9cb27a00cb032dba9a627fa1dbad42aadce9d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 19/36] fix: survive a state file whose running times
 contradict each other

---
 preload-src/src/algorithm/markov.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 734ce59..8a2fab6 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -176,11 +176,11 @@ preload_markov_correlation (preload_markov_t *markov)
   else {
     numerator = ((double)t*ab) - ((double)a * b);
     denominator2 = ((double)a * b) * ((double)(t - a) * (t - b));
-    correlation = numerator / sqrt (denominator2);
+    /* the times in a state file may fit no history at all */
+    correlation = denominator2 > 0 ? numerator / sqrt (denominator2) : 0;
   }
-  
-  g_assert (fabs (correlation) <= 1.00001);
-  return correlation;
+
+  return CLAMP (correlation, -1.0, 1.0);
 }
 
 
-- 
2.43.0


From 9cd6a690ea9edd0170db5ad5bfc89c720add75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 20/36] fix: do not load launch sequences longer than the tree
 keeps

---
 preload-src/src/algorithm/vomm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index a843e66..c00bda4 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -530,6 +530,14 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    int depth = 0;
+    for (vomm_node_t *n = parent_node; n->parent; n = n->parent)
+        depth++;
+    if (depth >= MAX_VOMM_DEPTH) {
+        g_warning("[VOMM] Node id=%" G_GINT64_FORMAT " is too deep. Skipping.", id);
+        return;
+    }
+
     if (g_hash_table_lookup(parent_node->children, exe->path)
         || g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)id))) {
         g_warning("[VOMM] Node id=%" G_GINT64_FORMAT " is a duplicate. Skipping.", id);
-- 
2.43.0


From 0883b9ce0a9e0be508ef71a45db2a94cb5d8d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 21/36] fix: start the launch tree when a reload selects the
 VOMM algorithm

---
 preload-src/src/daemon/preload.c | 1 +
 preload-src/src/handling/state.c | 9 ++++++++-
 preload-src/src/handling/state.h | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 7900f7e..08aea72 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -93,6 +93,7 @@ sig_handler_sync (gpointer data)
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
       preload_log_reopen (ctx->logfile);
+      preload_state_start_algorithm ();
       break;
     case SIGUSR1:
       preload_state_dump_log ();
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 140410f..6c46c1e 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -243,7 +243,7 @@ preload_state_autosave (gpointer G_GNUC_UNUSED user_data)
 
 
 void
-preload_state_run (const char *statefile)
+preload_state_start_algorithm (void)
 {
   if (preload_is_vomm_algorithm()) {
       if (!vomm_init()) {
@@ -253,6 +253,13 @@ preload_state_run (const char *statefile)
           vomm_hydrate_from_state();
       }
   }
+}
+
+
+void
+preload_state_run (const char *statefile)
+{
+  preload_state_start_algorithm ();
   g_timeout_add (0, preload_state_tick, NULL);
   if (statefile) {
     autosave_statefile = g_strdup (statefile);
diff --git a/preload-src/src/handling/state.h b/preload-src/src/handling/state.h
index 190c676..338c2c7 100644
--- a/preload-src/src/handling/state.h
+++ b/preload-src/src/handling/state.h
@@ -69,6 +69,7 @@ void preload_state_load (const char *statefile);
 void preload_state_save (const char *statefile);
 void preload_state_dump_log (void);
 void preload_state_run (const char *statefile);
+void preload_state_start_algorithm (void); /* start the configured algorithm if it needs to be */
 void preload_state_free (void);
 
 
-- 
2.43.0


From ab466c3e4adeb82e861c95b0396befd19058c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 22/36] fix: do only async-signal-safe work in the signal
 handler

---
 preload-src/src/daemon/preload.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 08aea72..e574c20 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -31,7 +31,9 @@
 #include "context.h"
 
 #include <signal.h>
+#include <fcntl.h>
 #include <grp.h>
+#include <glib-unix.h>
 
 /* variables */
 
@@ -86,10 +88,21 @@ daemonize (void)
 /* signal handling */
 
 
+/* only async-signal-safe calls may be made in the handler, so it merely
+ * sends the signal number to the main loop.  the pid tells the daemon's
+ * signals from those of a readahead child. */
+typedef struct _sig_msg_t { pid_t pid; int sig; } sig_msg_t;
+static int sig_pipe[2];
+
 static gboolean
-sig_handler_sync (gpointer data)
+sig_handler_sync (gint fd, GIOCondition G_GNUC_UNUSED condition, gpointer G_GNUC_UNUSED data)
 {
-  switch (GPOINTER_TO_INT (data)) {
+  sig_msg_t msg;
+
+  if (read (fd, &msg, sizeof (msg)) != sizeof (msg) || msg.pid != getpid ())
+    return TRUE;
+
+  switch (msg.sig) {
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
       preload_log_reopen (ctx->logfile);
@@ -107,18 +120,27 @@ sig_handler_sync (gpointer data)
       g_main_loop_quit (ctx->main_loop);
       break;
   }
-  return FALSE;
+  return TRUE;
 }
 
 static void
 sig_handler (int sig)
 {
-  g_timeout_add (0, sig_handler_sync, GINT_TO_POINTER (sig));
+  int saved_errno = errno;
+  sig_msg_t msg = { getpid (), sig };
+  ssize_t G_GNUC_UNUSED n = write (sig_pipe[1], &msg, sizeof (msg));
+  errno = saved_errno;
 }
 
 static void
 set_sig_handlers (void)
 {
+  if (!g_unix_open_pipe (sig_pipe, FD_CLOEXEC, NULL)
+      || !g_unix_set_fd_nonblocking (sig_pipe[0], TRUE, NULL)
+      || !g_unix_set_fd_nonblocking (sig_pipe[1], TRUE, NULL))
+    g_error ("cannot set up signal handling: %s", strerror (errno));
+  g_unix_fd_add (sig_pipe[0], G_IO_IN, sig_handler_sync, NULL);
+
   /* trap key signals */
   signal (SIGINT,  sig_handler);
   signal (SIGQUIT, sig_handler);
-- 
2.43.0


From 5c029e733fc04fcf31aa143beb0b4742a7c3e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 23/36] fix: accept a configuration file without all sections

---
 preload-src/src/config/conf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 5420c66..9af93e9 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -46,6 +46,14 @@ set_default_conf (preload_conf_t *conf)
 #undef confkey
 }
 
+/* the file need not have the group either */
+static gboolean
+key_not_set (GError *e)
+{
+  return g_error_matches (e, G_KEY_FILE_ERROR, G_KEY_FILE_ERROR_KEY_NOT_FOUND)
+      || g_error_matches (e, G_KEY_FILE_ERROR, G_KEY_FILE_ERROR_GROUP_NOT_FOUND);
+}
+
 void
 preload_conf_load (const char *conffile, gboolean fail)
 {
@@ -83,7 +91,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	if (!e) { \
 	  free_##type (newconf.grp.key); \
 	  newconf.grp.key = dummyconf.grp.key; \
-	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
+	} else if (!key_not_set (e)) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
@@ -99,7 +107,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  int procs = g_key_file_get_integer (f, "system", "processes", &e);
 	  if (!e)
 	    newconf.system.maxprocs = procs;
-	  else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) {
+	  else if (!key_not_set (e)) {
 	    g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s",
 		   "system", "processes", e->message);
 	    g_error_free (e);
-- 
2.43.0


From 2dd62beeac7a6a017ac91b30cfa630a82270423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 24/36] fix: do not leak the rejected configuration of a failed
 reload

---
 preload-src/src/config/conf.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 9af93e9..a7202ae 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -57,7 +57,7 @@ key_not_set (GError *e)
 void
 preload_conf_load (const char *conffile, gboolean fail)
 {
-  GKeyFile *f;
+  GKeyFile *f = NULL;
   GError *e = NULL;
   preload_conf_t newconf;
   memset(&newconf, 0, sizeof(newconf));
@@ -73,7 +73,8 @@ preload_conf_load (const char *conffile, gboolean fail)
       f = g_key_file_new ();
       if (!g_key_file_load_from_file (f, conffile, G_KEY_FILE_NONE, &e)) {
 	g_log (G_LOG_DOMAIN, flags, "failed loading conf from %s: %s", conffile, e->message);
-	return;
+	g_error_free (e);
+	goto fail;
       }
 
 #define get_integer(grp, key, unit) (unit * g_key_file_get_integer (f, grp, key, &e))
@@ -95,7 +96,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
-	  return; \
+	  goto fail; \
 	} else { \
 	  g_error_free (e); \
 	  e = NULL; \
@@ -111,7 +112,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	    g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s",
 		   "system", "processes", e->message);
 	    g_error_free (e);
-	    return;
+	    goto fail;
 	  } else {
 	    g_error_free (e);
 	    e = NULL;
@@ -129,6 +130,14 @@ preload_conf_load (const char *conffile, gboolean fail)
   g_free (conf->system.prediction_algorithm);
 
   *conf = newconf;
+  return;
+
+fail:
+  if (f)
+    g_key_file_free (f);
+  g_strfreev (newconf.system.mapprefix);
+  g_strfreev (newconf.system.exeprefix);
+  g_free (newconf.system.prediction_algorithm);
 }
 
 void
-- 
2.43.0


From 419ab2a4e12cfcfdcafd45fcef01ceb08ba8074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 25/36] fix: count a region of two terabytes or more against
 the memory budget

---
 preload-src/src/algorithm/prophet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..96cd5cd 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -194,7 +194,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((int)MIN (((v) + 1023) / 1024, (size_t)G_MAXINT))
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
-- 
2.43.0


From 3ceae0bc9dc8039f29ef180ea8837698bacb65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 26/36] fix: name the offending line of a state file with stray
 bytes

---
 preload-src/src/handling/state_io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index b995d37..cce6278 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -442,6 +442,9 @@ preload_state_read_file (const char *statefile)
     return errmsg;
   }
 
+  /* lines of bytes: no character set to get wrong, no other line ends */
+  g_io_channel_set_encoding (f, NULL, NULL);
+  g_io_channel_set_line_term (f, "\n", 1);
   errmsg = read_state (f);
   g_io_channel_unref (f);
   
-- 
2.43.0


From bdc4c564c9750ac760da0e69c7bc2fde2cb001b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 27/36] fix: estimate available memory without overflow for
 large caches

---
 preload-src/src/monitoring/proc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 48cc2d4..5de1c23 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -281,7 +281,8 @@ proc_get_memstat (preload_memory_t *mem)
   if (!mem->available && mem->free) {
     /* Approximate: free + (cached - min cache) + (buffers portion) 
      * This is a rough estimate; kernel's calculation is more complex */
-    mem->available = mem->free + (mem->cached * 80 / 100) + (mem->buffers * 75 / 100);
+    mem->available = mem->free + (int) ((gint64) mem->cached * 80 / 100)
+		     + (int) ((gint64) mem->buffers * 75 / 100);
   }
 
   if (!mem->total || !mem->pagein)
-- 
2.43.0


From 6c6378f335ca067f19dbcca139490eeb2bdb25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 28/36] fix: do not estimate available memory when the kernel
 reports none

---
 preload-src/src/algorithm/prophet.c | 2 +-
 preload-src/src/monitoring/proc.c   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 96cd5cd..a7763c4 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -224,7 +224,7 @@ preload_prophet_readahead (GPtrArray *maps_arr)
    *   Can contain dirty pages that need writeback first.
    *   We use the configured percentage.
    */
-  if (memstat.available > 0) {
+  if (memstat.available >= 0) {
     /* Linux 3.14+ provides accurate available memory estimate */
     memavail = memstat.available;
     
diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 5de1c23..1e171fe 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -246,6 +246,7 @@ proc_get_memstat (preload_memory_t *mem)
   char buf[4096] = {0};
 
   memset (mem, 0, sizeof (*mem));
+  mem->available = -1; /* not reported */
 
   if (!pagesize)
     pagesize = getpagesize ();
@@ -278,7 +279,7 @@ proc_get_memstat (preload_memory_t *mem)
   mem->pageout *= pagesize / 1024;
 
   /* Fallback for MemAvailable (pre Linux 3.14) */
-  if (!mem->available && mem->free) {
+  if (mem->available < 0 && mem->free) {
     /* Approximate: free + (cached - min cache) + (buffers portion) 
      * This is a rough estimate; kernel's calculation is more complex */
     mem->available = mem->free + (int) ((gint64) mem->cached * 80 / 100)
-- 
2.43.0


From 1c1ad8dd46f87e39c3071fba85d20756c9d1aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 29/36] fix: look up blocks or inodes again when the sort
 setting changes

---
 preload-src/src/handling/readahead.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index a2e3478..7b064cc 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -24,6 +24,7 @@
 #include "readahead.h"
 #include "log.h"
 #include "conf.h"
+#include "state.h"
 
 #include <sys/ioctl.h>
 #include <sys/wait.h>
@@ -244,9 +245,18 @@ process_file(const char *path, size_t offset, size_t length)
 static void
 sort_by_block_or_inode (preload_map_t **files, int file_count)
 {
+  static int sorted_by = SORT_NONE;
   int i;
   gboolean need_block = FALSE;
 
+  /* inodes are of no use for sorting by block, and the other way around */
+  if (sorted_by != (int) conf->system.sortstrategy)
+    {
+      for (i=0; i<(int)state->maps_arr->len; i++)
+	((preload_map_t *)g_ptr_array_index (state->maps_arr, i))->block = -1;
+      sorted_by = conf->system.sortstrategy;
+    }
+
   /* first see if any file doesn't have block/inode info */
   for (i=0; i<file_count; i++)
     if (files[i]->block == -1)
-- 
2.43.0


From 60fd587f18853bfaffc3c6192ed2acf3d95bb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 30/36] fix: track every application when the minimum size is
 negative

---
 preload-src/src/monitoring/spy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index 7a82052..fabe94b 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -99,7 +99,7 @@ new_exe_callback (gpointer key, gpointer value, gpointer G_GNUC_UNUSED user_data
   if (!size) /* process died or something */
     return;
 
-  want_it = size >= (size_t)conf->model.minsize;
+  want_it = conf->model.minsize <= 0 || size >= (size_t)conf->model.minsize;
 
   if (want_it) {
     preload_exe_t *exe;
-- 
2.43.0


From 9dcbff0dfc793a96187e78ed66cd4b2676eba7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 31/36] fix: do not crash dumping the configuration when a
 prefix list is empty

---
 preload-src/src/config/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index a7202ae..3d772a8 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -162,7 +162,7 @@ preload_conf_dump_log (void)
 	fprintf (stderr, "%s", v);
 #define print_string_list(v, unit) G_STMT_START {\
 	  char **p = v; \
-	  if (p) \
+	  if (p && *p) \
 	    fprintf (stderr, "%s", *p++); \
 	  while (p && *p) \
 	    fprintf (stderr, ";%s", *p++); \
-- 
2.43.0


From a7e7f9c1cc8e1c1d5e954e0961b73c0f4389906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 32/36] fix: do not truncate launch-tree record numbers of a
 state file

---
 preload-src/src/algorithm/vomm.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index c00bda4..de3a037 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -514,12 +514,12 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     if (!vomm_system.root) vomm_init(); // Ensure initialized
 
     if (import_node_map == NULL) {
-        import_node_map = g_hash_table_new(g_direct_hash, g_direct_equal);
+        import_node_map = g_hash_table_new_full(g_int64_hash, g_int64_equal, g_free, NULL);
         /* Add root as ID 0 */
-        g_hash_table_insert(import_node_map, GINT_TO_POINTER(0), vomm_system.root);
+        g_hash_table_insert(import_node_map, g_new0(gint64, 1), vomm_system.root);
     }
 
-    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)parent_id));
+    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, &parent_id);
     if (!parent_node) {
         g_warning("[VOMM] Orphan node id=%" G_GINT64_FORMAT ", parent=%" G_GINT64_FORMAT " not found. Skipping.", id, parent_id);
         return;
@@ -539,7 +539,7 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     }
 
     if (g_hash_table_lookup(parent_node->children, exe->path)
-        || g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)id))) {
+        || g_hash_table_lookup(import_node_map, &id)) {
         g_warning("[VOMM] Node id=%" G_GINT64_FORMAT " is a duplicate. Skipping.", id);
         return;
     }
@@ -555,7 +555,9 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     g_hash_table_insert(parent_node->children, g_strdup(exe->path), node);
 
     /* Remember this node for future children */
-    g_hash_table_insert(import_node_map, GINT_TO_POINTER((gint)id), node);
+    gint64 *key = g_new(gint64, 1);
+    *key = id;
+    g_hash_table_insert(import_node_map, key, node);
 }
 
 void vomm_import_done(void) {
-- 
2.43.0


From 4eaa5d7884666f0c5a50b79466ab56bad2ced22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 33/36] fix: log fatal errors at verbosity 0, too

G_LOG_FLAG_FATAL is set in their level, which made it compare greater than
G_LOG_LEVEL_ERROR: with --verbose=0 the daemon ended without a word.
---
 preload-src/src/utils/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index ac581bd..50f7cd9 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -36,7 +36,7 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
   char *timestr;
 
   /* ignore unimportant messages */
-  if (log_level <= G_LOG_LEVEL_ERROR << preload_log_level)
+  if ((log_level & G_LOG_LEVEL_MASK) <= G_LOG_LEVEL_ERROR << preload_log_level)
     {
       curtime = time (NULL);
       timestr = ctime (&curtime);
-- 
2.43.0


From bd7457a3c7d46ea144847d88e84c4cf3567574d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 34/36] fix: a log file that cannot be opened ends the daemon
 with an error, not a trap

The log handler was installed only after the file had been opened, so that
GLib's own handler raised SIGTRAP.
---
 preload-src/src/utils/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index 50f7cd9..ce099c4 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -62,6 +62,8 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
 void
 preload_log_init (const char *logfile)
 {
+  g_log_set_default_handler (preload_log, NULL);
+
   if (logfile && *logfile)
     {
       int logfd;
@@ -87,8 +89,6 @@ preload_log_init (const char *logfile)
 
       /* g_debug ("opening log file done"); */
     }
-
-  g_log_set_default_handler (preload_log, NULL);
 }
 
 void
-- 
2.43.0


From 672cb6c179a151a00a14d73e83f9082f3a24ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 35/36] fix: do not wait for a pipe that has taken the place of
 a recorded file

Opening it for its block number or for reading ahead blocked until somebody
opened the other end: the daemon (or the reader it then waits for) stood still.
---
 preload-src/src/handling/readahead.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 7b064cc..c1a773c 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -46,7 +46,8 @@ set_block(preload_map_t *file, gboolean use_inode)
   /* in case we can get block, set to 0 to not retry */
   file->block = 0;
 
-  fd = open(file->path, O_RDONLY);
+  /* the path may have become a pipe: do not wait for a writer */
+  fd = open(file->path, O_RDONLY | O_NOCTTY | O_NONBLOCK);
   if (fd < 0)
     return;
   
@@ -223,6 +224,7 @@ process_file(const char *path, size_t offset, size_t length)
   fd = open(path,
 	      O_RDONLY
 	    | O_NOCTTY
+	    | O_NONBLOCK
 #ifdef O_NOATIME
 	    | O_NOATIME
 #endif
-- 
2.43.0


From f3798c8567cae873a1c0c5d4b1f981d2dfc81b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 36/36] fix: do not take the rest of a long maps line for a
 mapping

---
 preload-src/src/monitoring/proc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 1e171fe..8b8ce02 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -92,6 +92,7 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
   FILE *in;
   size_t size = 0;
   char buffer[1024] = {0};
+  gboolean in_line = FALSE;
 
   if (exemaps)
     *exemaps = g_ptr_array_new ();
@@ -110,6 +111,12 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       char file[FILELEN + 1] = {0};
       long start = 0, end = 0, offset = 0, length = 0;
       int count;
+      gboolean rest_of_line = in_line;
+
+      /* a line may not fit: what follows is part of its file name */
+      in_line = !strchr (buffer, '\n');
+      if (rest_of_line)
+	continue;
 
       count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %512[^\n]",
 		      &start, &end, &offset, file);
-- 
2.43.0

