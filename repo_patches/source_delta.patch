From c3de02fcf5687ef118ab16e4c16932319c004157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 01/35] fix: nested phases no longer clobber the iteration
 state of an enclosing cycle

---
 copra/src/phase_driver.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..1e8830a 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -190,10 +190,16 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    // Nested phases and cycles may not disturb the state of an enclosing cycle.
+    size_t prev_cycle_iter = phase_driver.cycle_iter;
+    bool prev_fixed_point = phase_driver.fixed_point;
+    phase_driver.cycle_iter = 0;
 
     do {
         // If we cycle around, reset the action id.
-        phase_driver.fixed_point = true;
+        if (cycle) {
+            phase_driver.fixed_point = true;
+        }
         phase_driver.action_id = curr_action_id;
         size_t action_counter = 0;
         enum ccn_action_id action_id = phase->action_table[action_counter];
@@ -213,7 +219,10 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
+    phase_driver.cycle_iter = prev_cycle_iter;
+    if (cycle) {
+        phase_driver.fixed_point = prev_fixed_point;
+    }
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From 70c67340e61a70dcd59a32ab68584ce52dbf43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 02/35] fix: HTremove on an empty bucket dereferenced a null
 entry

---
 palm/src/hash_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..3e0de12 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -155,7 +155,7 @@ void *HTremove(htable_st *table, void *key)
     }
 
     previous = entry;
-    entry = entry->next;
+    entry = entry ? entry->next : NULL;
 
     while (entry) {
         if (table->is_equal_f(entry->key, key)) {
-- 
2.43.0


From 8aaabd611bd240bff066f4792e3c0f0cb4903b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 03/35] fix: HTclear left the element count of a cleared table
 unchanged

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 3e0de12..26c1026 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -206,6 +206,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From 81951b02ddee19f2dffe3a4db11b8f1faf5e9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 04/35] fix: HTnew did not check the allocation of its bucket
 array

---
 palm/src/hash_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 26c1026..03b83f1 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -5,6 +5,7 @@
 #include <assert.h>
 #include <stdio.h>
 
+#include "palm/ctinfo.h"
 #include "palm/hash_table.h"
 #include "palm/memory.h"
 #include "palm/str.h"
@@ -44,6 +45,9 @@ struct htable *HTnew(size_t size, hash_key_ft hash_func, is_equal_ft is_equal_fu
     table->size = size;
     table->elements = 0;
     table->entries = calloc(sizeof(struct htable_entry *), size);
+    if (table->entries == NULL && size > 0) {
+        CTIabortOutOfMemory(sizeof(struct htable_entry *) * size);
+    }
     table->hash_f = hash_func;
     table->is_equal_f = is_equal_func;
 
-- 
2.43.0


From 2f76011c8a6c45a1ca6e11be13cf5b14139287c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 05/35] fix: STRsubstToken crashed on a NULL string and looped
 forever on an empty token

---
 palm/src/str.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..f3d428c 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -562,6 +562,15 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL) {
+        return NULL;
+    }
+
+    /* Nothing to substitute, an empty token would match forever. */
+    if (STRlen(token) == 0) {
+        return STRcpy(str);
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
-- 
2.43.0


From 806be31c07d8747bbabea4e898951c6f5ce1a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 06/35] fix: STRsubStr with a large negative length wrote
 outside the result

---
 palm/src/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index f3d428c..9e2342e 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -87,6 +87,10 @@ char *STRsubStr(const char *string, int start, int len)
         len = strlen + len; /* + - => - */
     }
 
+    if (len < 0) { /* more cut off than there is */
+        len = 0;
+    }
+
     if ((start + len) > strlen) { /* to long take what we can */
         len = strlen - start;
     }
-- 
2.43.0


From 96c9149a056b46bbc17ec46598d220938109e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:24 +0000
Subject: [PATCH 07/35] fix: the parser had no alternative for the uint type

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index a805eca..1cf465a 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -835,6 +835,8 @@ attribute_primitive_type: T_BOOL
     { $$ = AT_float; }
     | T_DOUBLE
     { $$ = AT_double; }
+    | T_UINT
+    { $$ = AT_uint; }
     | T_UINT8
     { $$ = AT_uint8; }
     | T_UINT16
-- 
2.43.0


From 24b4fed1f7dc68ee3b2ab1911f2919fd33ff465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 08/35] fix: the action table had no entry for the built-in
 check action

---
 cocogen/ccngen/action_handling.c        | 1 +
 cocogen/phase_driver/gen_action_array.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/cocogen/ccngen/action_handling.c b/cocogen/ccngen/action_handling.c
index 5c3c79a..80a59bc 100644
--- a/cocogen/ccngen/action_handling.c
+++ b/cocogen/ccngen/action_handling.c
@@ -122,6 +122,7 @@ static struct ccn_action ccn_action_array[] = {
 {CCN_ACTION_PASS, CCNAC_ID_DOOPTS, "doOpts", .pass = {PASS_DOOPTS,},},
 {CCN_ACTION_PASS, CCNAC_ID_GENDEFINES, "genDefines", .pass = {PASS_GENDEFINES,},},
 {CCN_ACTION_PASS, CCNAC_ID_SCANANDPARSE, "scanAndParse", .pass = {PASS_SCANANDPARSE,},},
+{CCN_ACTION_TRAVERSAL, CCNAC_ID_check, "Check", .traversal = {TRAV_check,},},
 {CCN_ACTION_TRAVERSAL, CCNAC_ID_free, "Free", .traversal = {TRAV_free,},},
 {CCN_ACTION_PHASE, CCNAC_ID_cleanup, "Cleanup", .phase = {NULL, NT_AST, cleanup_ids_table, false, CCNAC_ID_cleanup,},},
 };
diff --git a/cocogen/phase_driver/gen_action_array.c b/cocogen/phase_driver/gen_action_array.c
index 08cefe2..1708ec6 100644
--- a/cocogen/phase_driver/gen_action_array.c
+++ b/cocogen/phase_driver/gen_action_array.c
@@ -25,6 +25,9 @@ node_st *GAAast(node_st *node)
 
     TRAVchildren(node);
 
+    OUT("{CCN_ACTION_TRAVERSAL, %s_check, \"Check\", .traversal = "
+        "{TRAV_check,},},\n", enum_action_pref);
+
     OUT("{CCN_ACTION_TRAVERSAL, %s_free, \"Free\", .traversal = "
         "{TRAV_free,},},\n", enum_action_pref);
 
-- 
2.43.0


From 82ee04df7e034fca1d576a59e170d500cc7e6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 09/35] fix: the check traversal called a function that does
 not exist for allowed children and attributes

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..67e8d58 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From 3778bd2a3789f90e498c2b46f1695cb2413cc5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 10/35] fix: only the first lifetime of a node, child or
 attribute was checked

---
 cocogen/dynamic_backend/gen_check_traversal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 67e8d58..6578ca4 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -687,6 +687,7 @@ node_st *DGCHTilifetime(node_st *node)
         LifetimeAttributeGen(node);
     }
 
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From dc59197572889f8a7ed6707d2f818f879405e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 11/35] fix: action ids were mapped to the first lifetime of a
 list only

---
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..285a1e6 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -99,6 +99,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 104a0bce9cd1a121861e542fea678721fc7ce4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 12/35] fix: mapping lifetimes dereferenced an action that was
 not found

---
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 285a1e6..7a2d92f 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -63,6 +63,7 @@ node_st *MITLiactions(node_st *node)
     node_st *action_lookup = STlookup(ste, IACTIONS_REFERENCE(node));
     if (action_lookup == NULL) {
         CTI(CTI_ERROR, true, "Lifetime target(%s) does not reference a valid action.", ID_ORIG(IACTIONS_REFERENCE(node)));
+        return node;
     }
     if (NODE_TYPE(action_lookup) == NT_IPHASE) {
         if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
-- 
2.43.0


From 51e12f363878b8632bb5a90a760ed63d05079517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 13/35] fix: a lifetime ending with a phase ended early when
 its last action was a phase

---
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 7a2d92f..fc3a84a 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -35,6 +35,24 @@ static bool CompareID(node_st *id, node_st *other_id)
     return STReq(ID_LWR(id), ID_LWR(other_id));
 }
 
+/**
+ * Find the ID of the last action that runs as part of an action, which for a
+ * phase can be located in a nested phase.
+ * @param action reference to an action
+ * @return the ID of the last nested action, or of the action itself.
+ */
+static int LastActionID(node_st *action)
+{
+    node_st *target = STlookup(ste, IACTIONS_REFERENCE(action));
+    while (target && NODE_TYPE(target) == NT_IPHASE && IPHASE_IACTIONS(target)) {
+        action = IPHASE_IACTIONS(target);
+        while (IACTIONS_NEXT(action)) {
+            action = IACTIONS_NEXT(action);
+        }
+        target = STlookup(ste, IACTIONS_REFERENCE(action));
+    }
+    return IACTIONS_ACTION_ID(action);
+}
 
 node_st *MITLast(node_st *node)
 {
@@ -118,13 +136,7 @@ node_st *MITLlifetime_range(node_st *node)
     } else {
         LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
         if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
+            LIFETIME_RANGE_NEXT_ACTION_ID(node) = LastActionID(last_action) + 1;
         } else {
             LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
         }
-- 
2.43.0


From b1e05dd4a3abaa5c41035483651a72ab101acb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:15 +0000
Subject: [PATCH 14/35] fix: constructor parameters of user types were named
 differently than their use

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 46ef2c2..5a6fb11 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -73,7 +73,7 @@ node_st *DGIFattribute(node_st *node)
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
             OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
             OUT("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), DGHattributeField(node));
         }
-- 
2.43.0


From f2dff0292e409ae74a94002c43746bcfdad9d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:27 +0000
Subject: [PATCH 15/35] fix: a pass with its own function was declared under
 another name than it is called by

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..99d68e9 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -7,6 +7,7 @@
 #include "globals.h"
 #include "dynamic_backend/gen_helpers.h"
 #include "../gen_helpers.h"
+#include "palm/memory.h"
 
 char *current_trav_prefix = NULL;
 static node_st *ast;
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 409462d46d5091afee30ef0a7633ed6985526566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:05 +0000
Subject: [PATCH 16/35] fix: a cycle with info, uid, gate and actions could not
 be parsed when written with commas

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 1cf465a..54e5e39 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -302,7 +302,7 @@ phase: phaseheader '{' info[information] ',' uid[identifier] ',' gate[gatef] ','
          IPHASE_IPREFIX($$) = $identifier;
          IPHASE_IACTIONS($$) = $actions;
     }
-    | cycleheader '{' info[information] uid[identifier] gate[gatef] actionsbody[actions] '}'
+    | cycleheader '{' info[information] ',' uid[identifier] ',' gate[gatef] ',' actionsbody[actions] '}'
     {
         $$ = $1;
         IPHASE_IPREFIX($$) = $identifier;
-- 
2.43.0


From e9e58f55228ae478d9d77bb0b8db2a9229ec7b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 17/35] fix: an enum constructor parameter used the spelling of
 the reference instead of the enum's name

---
 cocogen/dynamic_backend/gen_node_constructor.c | 2 ++
 cocogen/dynamic_backend/gen_node_init_funcs.c  | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_constructor.c b/cocogen/dynamic_backend/gen_node_constructor.c
index 0cbf708..245adc5 100644
--- a/cocogen/dynamic_backend/gen_node_constructor.c
+++ b/cocogen/dynamic_backend/gen_node_constructor.c
@@ -11,6 +11,7 @@
 
 
 extern bool dgif_print_semicolon;
+extern node_st *dgif_ste;
 static char *basic_node_type = "node_st";
 static long num_children = 0;
 static char *node_name_upr = NULL;
@@ -19,6 +20,7 @@ static char *node_name_lwr = NULL;
 node_st *DGNCast(node_st *node)
 {
     dgif_print_semicolon = false;
+    dgif_ste = AST_STABLE(node);
     TRAVinodes(node);
     return node;
 }
diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 5a6fb11..0392d2e 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -9,8 +9,10 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "dynamic_backend/gen_helpers.h"
+#include "frontend/symboltable.h"
 
 bool dgif_print_semicolon = false;
+node_st *dgif_ste = NULL;
 static char *basic_node_type = "node_st";
 static char *curr_node_name = NULL;
 static char *curr_node_name_upr = NULL;
@@ -19,6 +21,7 @@ static int arg_num = 0;
 node_st *DGIFast(node_st *node)
 {
     dgif_print_semicolon = true;
+    dgif_ste = AST_STABLE(node);
     TRAVinodes(node);
     return node;
 }
@@ -71,7 +74,11 @@ node_st *DGIFattribute(node_st *node)
         if (ATTRIBUTE_TYPE(node) == AT_link) {
             OUT("%s *%s", basic_node_type, DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
-            OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
+            node_st *ref = STlookup(dgif_ste, ATTRIBUTE_TYPE_REFERENCE(node));
+            // Should be handled by check_existence.
+            assert(ref);
+            assert(NODE_TYPE(ref) == NT_IENUM);
+            OUT("enum %s %s", ID_ORIG(IENUM_NAME(ref)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
             OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
-- 
2.43.0


From ee9629a514ffd3b80d65b4d689f3abd604f61809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:47 +0000
Subject: [PATCH 18/35] fix: check every attribute, not only the first of each
 node or nodeset

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 2f60e522a481d6ee0c714ca0c3ce528a4f85b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 19/35] fix: report the name of a duplicate pass function
 instead of its node

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From ef7816c2fbaa4fc5046310244d2d0a787dc53a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:27 +0000
Subject: [PATCH 20/35] fix: report a missing root node or start phase

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..84968d4 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -50,6 +50,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No start phase is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 21d314dd3acfa1f45c3971eca7d4c76eb144527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:39 +0000
Subject: [PATCH 21/35] fix: report an action that is not a phase, traversal or
 pass

---
 cocogen/frontend/check_existance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 84968d4..49731fb 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -68,6 +68,8 @@ node_st *CEXiactions(node_st *node)
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
     if (ref == NULL) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
+    } else if (NODE_TYPE(ref) != NT_IPHASE && NODE_TYPE(ref) != NT_ITRAVERSAL && NODE_TYPE(ref) != NT_IPASS) {
+        CTI(CTI_ERROR, true, "Action is not a phase, traversal or pass: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
 }
-- 
2.43.0


From 2d461aac137d76c966c97e7eef5285d00e4243eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:57 +0000
Subject: [PATCH 22/35] fix: report a phase that contains itself instead of
 recursing forever

---
 .../frontend/lifetimes/assign_id_to_actions.c | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cocogen/frontend/lifetimes/assign_id_to_actions.c b/cocogen/frontend/lifetimes/assign_id_to_actions.c
index 3c7814f..92d0890 100644
--- a/cocogen/frontend/lifetimes/assign_id_to_actions.c
+++ b/cocogen/frontend/lifetimes/assign_id_to_actions.c
@@ -7,10 +7,19 @@
 #include <assert.h>
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
+#include "ccn/ccn.h"
 #include "ccn/dynamic_core.h"
 #include "frontend/symboltable.h"
+#include "frontend/ctihelp.h"
+#include "palm/ctinfo.h"
 #include <stdint.h>
 
+// The phases the current action is nested in.
+struct active_phase {
+    node_st *phase;
+    struct active_phase *outer;
+};
+static struct active_phase *active_phases = NULL;
 
 // Start at 2, because 1 is start phase and 0 is undefined.
 static uint64_t curr_action_id = 2;
@@ -20,7 +29,10 @@ node_st *AITAast(node_st *node)
 {
     ste = AST_STABLE(node);
     assert(AST_START_PHASE(node) != NULL);
+    struct active_phase start = {AST_START_PHASE(node), NULL};
+    active_phases = &start;
     TRAVdo(AST_START_PHASE(node));
+    active_phases = NULL;
     return node;
 }
 
@@ -29,7 +41,19 @@ node_st *AITAiactions(node_st *node)
     IACTIONS_ACTION_ID(node) = curr_action_id++;
     node_st *action = STlookup(ste, IACTIONS_REFERENCE(node));
     if (NODE_TYPE(action) == NT_IPHASE) {
+        for (struct active_phase *curr = active_phases; curr != NULL; curr = curr->outer) {
+            if (curr->phase == action) {
+                struct ctinfo info;
+                id_to_info(IACTIONS_REFERENCE(node), &info);
+                CTIobj(CTI_ERROR, true, info, "Phase %s contains itself.", ID_ORIG(IACTIONS_REFERENCE(node)));
+                CCNerrorAction();
+                return node;
+            }
+        }
+        struct active_phase nested = {action, active_phases};
+        active_phases = &nested;
         TRAViactions(action);
+        active_phases = nested.outer;
     }
     TRAVnext(node);
     return node;
-- 
2.43.0


From d270c8e279b4eada2cf566e6b8d8acfce817bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:11 +0000
Subject: [PATCH 23/35] fix: print the attribute of an evaluation step

---
 cocogen/print/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 8c77378..306ec83 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -478,7 +478,7 @@ node_st *PRTvisit_sequence_eval(node_st *node)
 {
     PrintIndent();
     printf("eval ");
-    TRAVattribute(node);
+    TRAVopt(VISIT_SEQUENCE_EVAL_ATTRIBUTE(node));
     printf("\n");
     TRAVnext(node);
     return node;
-- 
2.43.0


From f44a70e797052e571f4dff075ec4c79cc016c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:26 +0000
Subject: [PATCH 24/35] fix: report redeclared attributes with the name of the
 node, not through the nodeset accessor

---
 cocogen/frontend/nodesets/propagate_attributes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..eaee164 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -54,7 +54,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -63,7 +63,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From 9f4962520f368134ac97d0ee7449b8be82e0b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:17 +0000
Subject: [PATCH 25/35] fix: print visit and partition numbers in their full
 width

---
 cocogen/dot/gen_dot_ag.c                   | 4 ++--
 cocogen/dynamic_backend/gen_ag_source.c    | 3 ++-
 cocogen/dynamic_backend/gen_visit_header.c | 3 ++-
 cocogen/dynamic_backend/gen_visit_source.c | 5 +++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cocogen/dot/gen_dot_ag.c b/cocogen/dot/gen_dot_ag.c
index 8f7a438..19e8428 100644
--- a/cocogen/dot/gen_dot_ag.c
+++ b/cocogen/dot/gen_dot_ag.c
@@ -103,9 +103,9 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                     if (partition == 0) {
                         OUT(" <I><SUB>NaN</SUB></I>");
                     } else if (partition % 2 == 0) {
-                        OUT(" <I>I<SUB>%d</SUB></I>", partition / 2);
+                        OUT(" <I>I<SUB>%zu</SUB></I>", partition / 2);
                     } else {
-                        OUT(" <I>S<SUB>%d</SUB></I>", partition / 2);
+                        OUT(" <I>S<SUB>%zu</SUB></I>", partition / 2);
                     }
                 }
                 OUT(">];\n");
diff --git a/cocogen/dynamic_backend/gen_ag_source.c b/cocogen/dynamic_backend/gen_ag_source.c
index 78854ee..8866e19 100644
--- a/cocogen/dynamic_backend/gen_ag_source.c
+++ b/cocogen/dynamic_backend/gen_ag_source.c
@@ -7,6 +7,7 @@
  *
  */
 #include <assert.h>
+#include <inttypes.h>
 
 #include "ccn/ccn.h"
 #include "ccngen/ast.h"
@@ -134,7 +135,7 @@ node_st *DGAGSvisit(node_st *node) {
     assert(!VISIT_INPUTS(node));
 
     char *visit_name =
-        STRfmt("CCNvisit_%s_%d", ID_LWR(INODE_NAME(VISIT_INODE(node))),
+        STRfmt("CCNvisit_%s_%" PRIu64, ID_LWR(INODE_NAME(VISIT_INODE(node))),
                VISIT_INDEX(node));
     OUT("%s(node);\n", visit_name);
     MEMfree(visit_name);
diff --git a/cocogen/dynamic_backend/gen_visit_header.c b/cocogen/dynamic_backend/gen_visit_header.c
index 15b3657..b8b6760 100644
--- a/cocogen/dynamic_backend/gen_visit_header.c
+++ b/cocogen/dynamic_backend/gen_visit_header.c
@@ -7,6 +7,7 @@
  *
  */
 #include <assert.h>
+#include <inttypes.h>
 
 #include "ccn/ccn.h"
 #include "ccn/dynamic_core.h"
@@ -69,7 +70,7 @@ node_st *DGVFvisit(node_st *node) {
     GeneratorContext *ctx = globals.gen_ctx;
 
     char *visit_name =
-        STRfmt("CCNvisit_%s_%d", ID_LWR(INODE_NAME(VISIT_INODE(node))),
+        STRfmt("CCNvisit_%s_%" PRIu64, ID_LWR(INODE_NAME(VISIT_INODE(node))),
                VISIT_INDEX(node));
     if (!VISIT_OUTPUTS(node)) { // 0 output
         OUT("void ");
diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..3521509 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -7,6 +7,7 @@
  *
  */
 #include <assert.h>
+#include <inttypes.h>
 
 #include "ccn/ccn.h"
 #include "ccn/dynamic_core.h"
@@ -121,7 +122,7 @@ node_st *DGVSvisit(node_st *node) {
     GeneratorContext *ctx = globals.gen_ctx;
 
     char *visit_name =
-        STRfmt("CCNvisit_%s_%d", ID_LWR(INODE_NAME(VISIT_INODE(node))),
+        STRfmt("CCNvisit_%s_%" PRIu64, ID_LWR(INODE_NAME(VISIT_INODE(node))),
                VISIT_INDEX(node));
     if (!VISIT_OUTPUTS(node)) { // 0 output
         OUT("void ");
@@ -410,7 +411,7 @@ static void print_visit_call(node_st *node, node_st *outputs,
 
     node_st *visit = VISIT_SEQUENCE_VISIT_VISIT(node);
     char *visit_name =
-        STRfmt("CCNvisit_%s_%d", ID_LWR(INODE_NAME(VISIT_INODE(visit))),
+        STRfmt("CCNvisit_%s_%" PRIu64, ID_LWR(INODE_NAME(VISIT_INODE(visit))),
                VISIT_INDEX(visit));
 
     node_st *child = VISIT_SEQUENCE_VISIT_CHILD(node);
-- 
2.43.0


From aa7276e5faaad7a8f0de7a73720f3468e4281a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 26/35] fix: name the unexpected token, and print parser
 messages as text

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 587c13d..49a2c99 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -190,7 +190,7 @@ static inline void check_c_keyword(const char *);
 }
 . {
     struct ctinfo info = {yylineno, yycolumn - 1, 0, 0, globals.filename, yy_linebuf};
-    CTIobj(CTI_ERROR, true, info, "Unexpected token found, quit parsing", yytext);
+    CTIobj(CTI_ERROR, true, info, "Unexpected token '%s' found, quit parsing", yytext);
     CTIabortOnError();
 }
 %%
@@ -242,6 +242,6 @@ int yywrap() {
 
 void yyerror(const char* s) {
     struct ctinfo info = {yylineno, yycolumn - yyleng, 0, yycolumn - 1, global_command_line.input_file, HTlookup(globals.line_map, &yylineno)};
-    CTIobj(CTI_ERROR, true, info, s);
+    CTIobj(CTI_ERROR, true, info, "%s", s);
     CTIabortOnError();
 }
-- 
2.43.0


From b66cb997975cb7e9828e07c227309c00c58ee823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:19 +0000
Subject: [PATCH 27/35] fix: an interrupted compilation does not report success

---
 palm/src/ctinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6812dff..181015b 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -348,7 +348,7 @@ static void InternalCompilerErrorBreak(int sig)
 static void UserForcedBreak(int sig)
 {
     CleanUp();
-    exit(0);
+    exit(1);
 }
 
 /** <!--********************************************************************-->
-- 
2.43.0


From 59bd5580185ac1d85ee353d0546a4964c7ecab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:33 +0000
Subject: [PATCH 28/35] fix: generated free traversal refers to no string field
 of inherited and synthesized attributes

---
 cocogen/dynamic_backend/gen_free_traversal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ae3b5d8..eca66f2 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -90,6 +90,14 @@ node_st *DGFTchild(node_st *node)
 node_st *DGFTattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
+
+    // Inherited and synthesized attributes are not owned by the node, see the
+    // copy traversal.
+    if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
+        TRAVnext(node);
+        return node;
+    }
+
     if (ATTRIBUTE_TYPE(node) == AT_string) {
         OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
     }
-- 
2.43.0


From 648dafef9da69502ba5b01d3f9bf1711c81c8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:51 +0000
Subject: [PATCH 29/35] fix: keep the info of a traversal with traversal data
 and no nodes

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 54e5e39..610a577 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -455,6 +455,7 @@ traversal: T_TRAVERSAL id[name] '{' info[information] ',' mandatory_uid[identifi
     {
            $$ = ASTitraversal($name);
            ITRAVERSAL_INDEX($$) = trav_index++;
+           ITRAVERSAL_IINFO($$) = $information;
            ITRAVERSAL_IPREFIX($$) = $identifier;
            ITRAVERSAL_DATA($$) = $data;
     }
-- 
2.43.0


From 7232ec02d6d0715d77f4ae473ab4caf062167ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:22 +0000
Subject: [PATCH 30/35] fix: accept a node with only lifetimes, and one with
 equations and lifetimes

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 610a577..1af26ba 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -690,10 +690,18 @@ node: is_root[root] T_NODE id[name] '{'  childrenbody[children] ',' attributebod
         INODE_IS_ROOT($$) = $root;
         INODE_IEQUATIONS($$) = $equations;
     }
-    | is_root[root] T_NODE id[name] '{' '}'
+    | is_root[root] T_NODE id[name] '{' equationbody[equations] ',' nodelifetimes[lifetimes] '}'
     {
         $$ = ASTinode($name, NULL);
         INODE_IS_ROOT($$) = $root;
+        INODE_IEQUATIONS($$) = $equations;
+        INODE_LIFETIMES($$) = $lifetimes;
+    }
+    | is_root[root] T_NODE id[name] '{' nodelifetimes[lifetimes] '}'
+    {
+        $$ = ASTinode($name, NULL);
+        INODE_IS_ROOT($$) = $root;
+        INODE_LIFETIMES($$) = $lifetimes;
     }
     ;
 
-- 
2.43.0


From 3409df7288bc0ca189b54fdcbe94f6fa39da261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:09 +0000
Subject: [PATCH 31/35] fix: report an attribute that depends on itself

---
 cocogen/frontend/attribute_scheduler/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..b1925c2 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,8 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    // An attribute that depends on itself is a cycle as well
+    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From 44ca54d7cb834d5e5c81460520baff0f5f96a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:09 +0000
Subject: [PATCH 32/35] fix: a visit of a nodeset starts with a member that is
 visited

---
 .../attribute_scheduler/generate_visits.c     | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index b407020..6003a2a 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -371,9 +371,26 @@ add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
                                  htable_st *visit_stubs_htable, node_st *expr,
                                  node_st *child, struct visit *original_visit) {
     node_st *visit_tail = NULL;
-    return add_visit_sequence_visit_nodeset_rec(&visit_tail, st, visits_htable,
-                                                visit_stubs_htable, expr, child,
-                                                original_visit);
+    node_st *sequence = add_visit_sequence_visit_nodeset_rec(
+        &visit_tail, st, visits_htable, visit_stubs_htable, expr, child,
+        original_visit);
+
+    // A dummy can only be an alternative of a visit, so the first visit has to
+    // be at the start.
+    node_st *last_dummy = NULL;
+    node_st *visit = sequence;
+    while (visit != NULL && NODE_TYPE(visit) == NT_VISIT_SEQUENCE_DUMMY) {
+        last_dummy = visit;
+        visit = VISIT_SEQUENCE_DUMMY_ALT(visit);
+    }
+
+    if (last_dummy != NULL && visit != NULL) {
+        VISIT_SEQUENCE_DUMMY_ALT(last_dummy) = VISIT_SEQUENCE_VISIT_ALT(visit);
+        VISIT_SEQUENCE_VISIT_ALT(visit) = sequence;
+        sequence = visit;
+    }
+
+    return sequence;
 }
 
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
-- 
2.43.0


From 6ea64f766cf63506cb9fecfe3208ec070df057ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:38 +0000
Subject: [PATCH 33/35] fix: keep the value of a child's inherited attribute in
 the child, where equations and later visits read it

---
 cocogen/dynamic_backend/gen_visit_source.c | 59 ++++++++++++++++++++--
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 3521509..d881183 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -215,6 +215,57 @@ static inline node_st *get_child(node_st *child_name) {
     return NULL;
 }
 
+static inline void print_set_child_value(node_st *inode, node_st *child,
+                                         node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    OUT("%s_%s(node)->data.N_%s->_%s.ccn_val_set = true;\n",
+        ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+        ID_LWR(INODE_NAME(inode)), ID_LWR(ATTRIBUTE_NAME(attribute)));
+    OUT("%s_%s(node)->data.N_%s->_%s.%s = %s_%s;\n",
+        ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+        ID_LWR(INODE_NAME(inode)), ID_LWR(ATTRIBUTE_NAME(attribute)),
+        ID_LWR(ATTRIBUTE_NAME(attribute)), ID_LWR(CHILD_NAME(child)),
+        ID_LWR(ATTRIBUTE_NAME(attribute)));
+}
+
+static void print_set_nodeset_child_value(node_st *expr, node_st *child,
+                                          node_st *attribute) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    if (expr == NULL) {
+        return;
+    }
+
+    node_st *inode = STlookup(ste, SETLITERAL_REFERENCE(expr));
+    OUT_BEGIN_IF("NODE_TYPE(%s_%s(node)) == NT_%s",
+                 ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+                 ID_UPR(INODE_NAME(inode)));
+    print_set_child_value(inode, child, attribute);
+    OUT_END_IF();
+
+    print_set_nodeset_child_value(SETLITERAL_LEFT(expr), child, attribute);
+    print_set_nodeset_child_value(SETLITERAL_RIGHT(expr), child, attribute);
+}
+
+// Store the value of an inherited attribute in the child, since equations and
+// later visits access it there.
+static inline void print_set_inherited_value(node_st *reference) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *child = get_child(ATTRIBUTE_REFERENCE_INODE(reference));
+    assert(child != NULL);
+    node_st *attribute = ATTRIBUTE_REFERENCE_REFERENCE(reference);
+    node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+    assert(type != NULL);
+
+    OUT_BEGIN_IF("%s_%s(node) != NULL", ID_UPR(INODE_NAME(curr_node)),
+                 ID_UPR(CHILD_NAME(child)));
+    if (NODE_TYPE(type) == NT_INODESET) {
+        print_set_nodeset_child_value(INODESET_EXPR(type), child, attribute);
+    } else {
+        print_set_child_value(type, child, attribute);
+    }
+    OUT_END_IF();
+}
+
 static inline void print_equation_args(node_st *equation,
                                        htable_st *children_null) {
     GeneratorContext *ctx = globals.gen_ctx;
@@ -379,6 +430,8 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
         MEMfree(arg_str);
+    } else { // attribute of child
+        print_set_inherited_value(attribute);
     }
 
     HTdelete(children_null);
@@ -458,9 +511,9 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        OUT_NO_INDENT(", %s_%s(%s)", ID_UPR(INODE_NAME(VISIT_INODE(visit))),
+                      ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+                      child_access);
     }
 
     OUT_NO_INDENT(");\n");
-- 
2.43.0


From 6e6bd76d188193eb63569762a029b98591af2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:45 +0000
Subject: [PATCH 34/35] fix: name the output of a visit after the child it
 visits

Two mandatory children of one type whose visit has several outputs
declared the same variable twice in the generated visit function.
---
 cocogen/dynamic_backend/gen_visit_source.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index d881183..8d3497e 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -498,7 +498,8 @@ static void print_visit_call(node_st *node, node_st *outputs,
             }
         } else { // multiple output
             multiple_outputs = true;
-            OUT("struct %s_out %s_output", visit_name, visit_name);
+            OUT("struct %s_out %s_%s_output", visit_name,
+                ID_LWR(CHILD_NAME(child)), visit_name);
             print_unused();
             OUT_NO_INDENT(" = ");
         }
@@ -530,10 +531,11 @@ static void print_visit_call(node_st *node, node_st *outputs,
                 print_type(ATTRIBUTE_REFERENCE_REFERENCE(attribute));
                 OUT_NO_INDENT(" ");
             }
-            OUT_NO_INDENT("%s_%s = %s_output.%s_%s;\n",
+            OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
                           ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
-                          visit_name, get_node_name_this(attribute),
+                          ID_LWR(CHILD_NAME(child)), visit_name,
+                          get_node_name_this(attribute),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
         }
     }
-- 
2.43.0


From 5637029c710c1c097b49d674642ef12c34de44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:56 +0000
Subject: [PATCH 35/35] fix: declare node_st for equations over link attributes

The generated equation headers and stubs of a node with an attribute of
a node type in an equation did not compile.
---
 cocogen/dynamic_backend/gen_equation_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 922b8fe..1eef61a 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -72,6 +72,7 @@ node_st *DGEFinode(node_st *node) {
         OUT("#include \"ccngen/ccn_defs.h\"\n");
         OUT("#include \"ccn/ccn_types.h\"\n");
         OUT("#include \"ccngen/enum.h\"\n");
+        OUT("#include \"ccngen/ast.h\"\n");
         OUT("#ifdef CCN_USES_UNSAFE\n");
         OUT("#include \"user_types.h\"\n");
         OUT("#endif\n");
-- 
2.43.0

