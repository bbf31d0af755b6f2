From 447cfc6b3c08e6b60fbec99d530a1bf592657e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 01/74] fix: child id of a line element at the maximum level

t8_dline_child_id asserted level < T8_DLINE_MAXLEVEL, but the child id is
defined for every element of level > 0 up to and including the maximum level.
---
 src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
index 7d2423e..0cf6d64 100644
--- a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
@@ -177,7 +177,7 @@ t8_dline_face_parent_face (const t8_dline_t *line, int face)
 int
 t8_dline_child_id (const t8_dline_t *line)
 {
-  T8_ASSERT (line->level < T8_DLINE_MAXLEVEL);
+  T8_ASSERT (line->level <= T8_DLINE_MAXLEVEL);
   /* bitshifting the Levelbit to first position & check if it is 1 or 0 */
   return ((line->x >> (T8_DLINE_MAXLEVEL - line->level)) & 1);
 }
-- 
2.43.0


From 7b8a7fd2613e9992a9ff22496df4415ec0374bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 02/74] fix: triangle family test must check the types of all
 three members

The three type conditions were joined with && and hence only rejected a family
when every type was wrong; duplicated or swapped triangles were accepted.
---
 src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
index 5c2d777..e870145 100644
--- a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
@@ -652,7 +652,7 @@ t8_dtri_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  if (f[1]->type != 0 && f[2]->type != 1 && f[3]->type != type) {
+  if (f[1]->type != 0 || f[2]->type != 1 || f[3]->type != type) {
     return 0;
   }
   /* check whether the coordinates are correct
-- 
2.43.0


From e32faf097757e2e772627344e0629f600036776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 03/74] fix: tetrahedron family test must check the type of the
 last member

---
 src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
index 3cf1ef0..3ec9253 100644
--- a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
@@ -33,7 +33,7 @@ t8_dtet_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN - 1; local_ind++) {
+  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN; local_ind++) {
     if (f[local_ind]->type != t8_dtet_type_of_child_morton[type][local_ind]) {
       return 0;
     }
-- 
2.43.0


From 03ea3c7dfd025f021eed5a3cb263c47264f1ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 04/74] fix: no undefined shift in the length of a standalone
 vertex element

T8_ELEMENT_MAXLEVEL of the vertex class is 255 and the element length would be
computed as 1 << (255 - level).  A vertex has no extent.
---
 src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index c11e37c..68ef43e 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -1688,6 +1688,10 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
   static constexpr t8_element_coord
   element_get_len (const t8_element_level level) noexcept
   {
+    if constexpr (TEclass == T8_ECLASS_VERTEX) {
+      /* A vertex has no extent. */
+      return 0;
+    }
     return 1 << (T8_ELEMENT_MAXLEVEL[TEclass] - (level));
   }
 
-- 
2.43.0


From b450f3209ddb50a736a91b6a943c3cae769cabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:16 +0000
Subject: [PATCH 05/74] fix: keep attribute offsets when repartitioning trees
 without attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 2e56c4d..8785653 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -762,9 +762,10 @@ t8_cmesh_partition_copy_data (char *send_buffer, t8_cmesh_t cmesh, const t8_cmes
         last_size = attr_info->attribute_size;
       }
       temp_offset_att += tree_copy->num_attributes * sizeof (t8_attribute_info_struct_t);
+      /* Trees without attributes do not move the attribute infos. */
+      last_num_att = tree_copy->num_attributes;
     }
     temp_offset_tree += sizeof (t8_ctree_struct_t);
-    last_num_att = tree_copy->num_attributes;
   }
 
   /* Copy all ghosts and set their face entries and offsets */
-- 
2.43.0


From 432730c25fe01c9b6c857b208da73c259ad07d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:16 +0000
Subject: [PATCH 06/74] fix: compare attribute keys and sizes in
 t8_cmesh_is_equal

---
 .../t8_cmesh_internal/t8_cmesh_trees.cxx      | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 87f88d1..af8fd33 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1173,6 +1173,21 @@ t8_cmesh_trees_is_face_consistent (const t8_cmesh_t cmesh, const t8_cmesh_trees_
   return ret;
 }
 
+/* Check whether two lists of attribute infos describe attributes with the same
+ * package ids, keys and sizes. */
+static int
+t8_cmesh_trees_attribute_infos_equal (const t8_attribute_info_struct_t *infos_a,
+                                      const t8_attribute_info_struct_t *infos_b, const int num_attributes)
+{
+  for (int iatt = 0; iatt < num_attributes; ++iatt) {
+    if (infos_a[iatt].package_id != infos_b[iatt].package_id || infos_a[iatt].key != infos_b[iatt].key
+        || infos_a[iatt].attribute_size != infos_b[iatt].attribute_size) {
+      return 0;
+    }
+  }
+  return 1;
+}
+
 int
 t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a, const t8_cmesh_trees_t trees_b)
 {
@@ -1229,6 +1244,9 @@ t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a,
       first_attb = T8_TREE_ATTR_INFO (treeb, 0);
       atta = (char *) T8_TREE_ATTR (treea, first_atta);
       attb = (char *) T8_TREE_ATTR (treeb, first_attb);
+      if (!t8_cmesh_trees_attribute_infos_equal (first_atta, first_attb, treea->num_attributes)) {
+        return 0;
+      }
       if (memcmp (atta, attb, attsizea)) {
         return 0;
       }
@@ -1264,6 +1282,9 @@ t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a,
       first_attb = T8_GHOST_ATTR_INFO (ghostb, 0);
       atta = (char *) T8_GHOST_ATTR (ghosta, first_atta);
       attb = (char *) T8_GHOST_ATTR (ghostb, first_attb);
+      if (!t8_cmesh_trees_attribute_infos_equal (first_atta, first_attb, ghosta->num_attributes)) {
+        return 0;
+      }
       if (memcmp (atta, attb, attsizea)) {
         return 0;
       }
-- 
2.43.0


From 7556d8cbf0faafa0ff01c01d0e19b4ddfafd1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:58 +0000
Subject: [PATCH 07/74] fix: do not write past the attribute infos if trees or
 ghosts have no attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx |  6 ++++++
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx  | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index 7d0f789..ae73ac8 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -100,7 +100,13 @@ t8_cmesh_add_attributes (const t8_cmesh_t cmesh, sc_hash_t *ghost_ids)
 
   t8_ghost_facejoin_t temp_facejoin = { 0, 0, 0 };
 
+  /* Ghosts without attributes do not need to be inserted. */
   t8_locidx_t ghosts_inserted = 0;
+  for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ++ighost) {
+    if (t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->num_attributes == 0) {
+      ghosts_inserted++;
+    }
+  }
   ltree = -1;
   for (si = 0, sj = 0; si < stash->attributes.elem_count; si++, sj++) {
     attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index af8fd33..0d56a05 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -742,8 +742,14 @@ t8_cmesh_trees_add_attribute (const t8_cmesh_trees_t trees, const int proc, cons
   attr_info->package_id = attr->package_id;
   attr_info->attribute_size = attr->attr_size;
   /* If we are not yet at the last attribute of the part,
-   * get next attribute and set its offset*/
-  if (!(index == (size_t) tree->num_attributes - 1 && part->num_trees == tree_id + 1 - part->first_tree_id)) {
+   * get next attribute and set its offset.
+   * The next attribute may belong to a later tree, since trees do not need to have attributes. */
+  int has_next_attribute = index < (size_t) tree->num_attributes - 1;
+  for (t8_locidx_t next_tree = tree_id + 1;
+       !has_next_attribute && next_tree < part->first_tree_id + part->num_trees; ++next_tree) {
+    has_next_attribute = t8_part_tree_get_tree (part, next_tree)->num_attributes > 0;
+  }
+  if (has_next_attribute) {
     /* Store offset of current attribute */
     offset = attr_info->attribute_offset;
     attr_info = attr_info + 1;
-- 
2.43.0


From b5447c838f97e14321d573de60584096add3277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:33 +0000
Subject: [PATCH 08/74] fix: copy the global to local ghost id map when copying
 a partitioned cmesh

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 0d56a05..b752ee5 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -686,6 +686,14 @@ t8_cmesh_trees_copy_toproc (t8_cmesh_trees_t trees_dest, const t8_cmesh_trees_t
 {
   memcpy (trees_dest->tree_to_proc, trees_src->tree_to_proc, sizeof (int) * lnum_trees);
   memcpy (trees_dest->ghost_to_proc, trees_src->ghost_to_proc, sizeof (int) * lnum_ghosts);
+  /* Copy the map from global ghost ids to local ids */
+  for (t8_locidx_t lghost = 0; lghost < lnum_ghosts; ++lghost) {
+    t8_trees_glo_lo_hash_t *hash_entry
+      = (t8_trees_glo_lo_hash_t *) sc_mempool_alloc (trees_dest->global_local_mempool);
+    hash_entry->global_id = t8_cmesh_trees_get_ghost (trees_src, lghost)->treeid;
+    hash_entry->local_id = lnum_trees + lghost;
+    sc_hash_insert_unique (trees_dest->ghost_globalid_to_local_id, hash_entry, nullptr);
+  }
 }
 
 void
-- 
2.43.0


From debc71b4cf12c990345cc1b0fba6b9d62f58c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:33 +0000
Subject: [PATCH 09/74] fix: broadcast a cmesh from the given root

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c   | 8 ++++----
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index ca7571d..22990b2 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -309,18 +309,18 @@ t8_stash_bcast (const t8_stash_t stash, const int root, sc_MPI_Comm comm, const
   }
   if (elem_counts[0] > 0) {
     mpiret = sc_MPI_Bcast (stash->attributes.array, elem_counts[0] * sizeof (t8_stash_attribute_struct_t), sc_MPI_BYTE,
-                           0, comm);
+                           root, comm);
     SC_CHECK_MPI (mpiret);
     t8_stash_bcast_attributes (&stash->attributes, root, comm);
   }
   if (elem_counts[1] > 0) {
     mpiret
-      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, 0, comm);
+      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, root, comm);
     SC_CHECK_MPI (mpiret);
   }
   if (elem_counts[2] > 0) {
-    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, 0,
-                           comm);
+    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE,
+                           root, comm);
     SC_CHECK_MPI (mpiret);
   }
   return stash;
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index b752ee5..8a94238 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1071,7 +1071,7 @@ t8_cmesh_trees_bcast (const t8_cmesh_t cmesh_in, const int root, const sc_MPI_Co
 
   for (ipart = 0; ipart < num_parts; ipart++) {
     part = t8_cmesh_trees_get_part (trees, ipart);
-    if (mpirank == 0) {
+    if (mpirank == root) {
       /* Gather information about part */
       part_info.num_trees = part->num_trees;
       part_info.first_tree_id = part->first_tree_id;
-- 
2.43.0


From 6af8d5a27125affef6882e2f4431727c01b6ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:33 +0000
Subject: [PATCH 10/74] fix: free broadcast cmesh attributes that are not owned
 on the root

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 22990b2..0fc7935 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -284,6 +284,8 @@ t8_stash_bcast_attributes (sc_array_t *attributes, const int root, sc_MPI_Comm c
     for (iatt = 0; iatt < num_atts; iatt++) {
       att = (t8_stash_attribute_struct_t *) sc_array_index (attributes, iatt);
       att->attr_data = T8_ALLOC (char, att->attr_size);
+      /* The memory belongs to the receiving stash, even if it does not on root */
+      att->is_owned = 1;
       memcpy (att->attr_data, buffer + copied_bytes, att->attr_size);
       copied_bytes += att->attr_size;
     }
-- 
2.43.0


From dfc0963d207532c5afa2de3ef611940acffea01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:33 +0000
Subject: [PATCH 11/74] fix: enable profiling on the broadcast cmesh instead of
 a NULL cmesh

---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 27c7e7c..f7c9447 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -766,7 +766,7 @@ t8_cmesh_bcast (const t8_cmesh_t cmesh_in, const int root, sc_MPI_Comm comm)
     cmesh_out->num_ghosts = 0;
     T8_ASSERT (cmesh_out->set_partition == 0);
     if (meta_info.cmesh.profile != nullptr) {
-      t8_cmesh_set_profiling (cmesh_in, 1);
+      t8_cmesh_set_profiling (cmesh_out, 1);
     }
     for (iclass = 0; iclass < T8_ECLASS_COUNT; iclass++) {
       cmesh_out->num_trees_per_eclass[iclass] = meta_info.num_trees_per_eclass[iclass];
-- 
2.43.0


From 33d5aede0f48374333879ce4693ef2c6ccb9a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:38 +0000
Subject: [PATCH 12/74] fix: setting a tree attribute again overwrites the
 previous one

---
 .../t8_cmesh_internal/t8_cmesh_commit.cxx     |  6 ++--
 .../t8_cmesh_internal/t8_cmesh_stash.c        | 30 +++++++++++++++++--
 .../t8_cmesh_internal/t8_cmesh_stash.h        |  4 ++-
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index ae73ac8..5819bc1 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -163,6 +163,9 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
       cmesh->num_trees_per_eclass[entry->eclass]++;
       cmesh->num_local_trees_per_eclass[entry->eclass]++;
     }
+    /* TODO: currently the attributes array still has to be sorted,
+     *       find a way around it */
+    t8_stash_attribute_sort (cmesh->stash);
     for (si = 0; si < stash->attributes.elem_count; si++) {
       attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
       /* attribute->id is a gloidx that is casted to a locidx here.
@@ -178,9 +181,6 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
 
     /* Add attributes */
-    /* TODO: currently the attributes array still has to be sorted,
-     *       find a way around it */
-    t8_stash_attribute_sort (cmesh->stash);
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
     cmesh->first_tree = 0;
     t8_cmesh_add_attributes (cmesh, nullptr);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 0fc7935..e5cb663 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -173,6 +173,7 @@ t8_stash_add_attribute (const t8_stash_t stash, const t8_gloidx_t id, const int
   sattr->is_owned = !copy ? 0 : 1;
   sattr->key = key;
   sattr->package_id = package_id;
+  sattr->insertion = stash->attributes.elem_count - 1;
   sattr->attr_data = !copy ? attr : T8_ALLOC (char, size);
   if (copy) {
     memcpy (sattr->attr_data, attr, size);
@@ -217,7 +218,8 @@ t8_stash_attribute_is_owned (const t8_stash_t stash, const size_t index)
 
 /* Compare two attribute entries A1 and A2.
  * A1 is smaller than A2 if and only if its treeid is smaller or (if equal)
- * its package id is smaller or (if also equal) its key is smaller.
+ * its package id is smaller or (if also equal) its key is smaller or
+ * (if also equal) it was added earlier.
  */
 static int
 t8_stash_attribute_compare (const void *v1, const void *v2)
@@ -227,7 +229,10 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 
   if (A1->id == A2->id) {
     if (A1->package_id == A2->package_id) {
-      return A1->key < A2->key ? -1 : A1->key > A2->key;
+      if (A1->key == A2->key) {
+        return A1->insertion < A2->insertion ? -1 : A1->insertion > A2->insertion;
+      }
+      return A1->key < A2->key ? -1 : 1;
     }
     return A1->package_id < A2->package_id ? -1 : 1;
   }
@@ -235,12 +240,31 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 }
 
 /* Sort the attribute entries in the order
- * (treeid, packageid, key)
+ * (treeid, packageid, key) and remove overwritten entries.
  */
 void
 t8_stash_attribute_sort (const t8_stash_t stash)
 {
   sc_array_sort (&stash->attributes, t8_stash_attribute_compare);
+
+  /* An attribute overwrites all attributes of the same tree, package and key that were added before */
+  size_t num_kept = 0;
+  for (size_t iatt = 0; iatt < stash->attributes.elem_count; ++iatt) {
+    const t8_stash_attribute_struct_t *att
+      = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, iatt);
+    if (iatt + 1 < stash->attributes.elem_count) {
+      const t8_stash_attribute_struct_t *next
+        = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, iatt + 1);
+      if (att->id == next->id && att->package_id == next->package_id && att->key == next->key) {
+        if (att->is_owned) {
+          T8_FREE (att->attr_data);
+        }
+        continue;
+      }
+    }
+    *(t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, num_kept++) = *att;
+  }
+  sc_array_resize (&stash->attributes, num_kept);
 }
 
 static void
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
index 270a29d..e93e0aa 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
@@ -70,6 +70,7 @@ typedef struct t8_stash_attribute
   int is_owned;     /**< True if the data was copied, false if the data is still owned by user. */
   int package_id;   /**< The id of the package that set this attribute. */
   int key;          /**< The key used by the package to identify this attribute. */
+  size_t insertion; /**< The number of attributes that were added before this one. */
 } t8_stash_attribute_struct_t;
 
 /** The stash data structure is used to store information about the cmesh
@@ -218,7 +219,8 @@ int
 t8_stash_attribute_is_owned (t8_stash_t stash, size_t index);
 
 /** Sort the attributes array of a stash in the order
- * (treeid, packageid, key) *
+ * (treeid, packageid, key) and remove all attributes that were overwritten by
+ * a later call to \ref t8_stash_add_attribute with the same tree, package and key.
  * \param [in,out]   stash   The stash to be considered.
  */
 void
-- 
2.43.0


From df3a9bd1cfd1b13747ef5a2f8776889c6073bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:23 +0000
Subject: [PATCH 13/74] fix: do not count the leaves of unused classes in the
 uniform bounds

---
 src/t8_cmesh/t8_cmesh.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index f7c9447..e99c13f 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -2366,8 +2366,11 @@ t8_cmesh_uniform_bounds_for_irregular_refinement (const t8_cmesh_t cmesh, const
   t8_gloidx_t local_num_children = 0;
   /*Compute number of local elements. Ignore shared trees */
   for (int ieclass = T8_ECLASS_ZERO; ieclass < T8_ECLASS_COUNT; ieclass++) {
-    local_num_children
-      += cmesh->num_local_trees_per_eclass[ieclass] * scheme->count_leaves_from_root ((t8_eclass_t) ieclass, level);
+    /* Skip classes that are not used, since their number of leaves may not be representable on this level. */
+    if (cmesh->num_local_trees_per_eclass[ieclass] > 0) {
+      local_num_children
+        += cmesh->num_local_trees_per_eclass[ieclass] * scheme->count_leaves_from_root ((t8_eclass_t) ieclass, level);
+    }
   }
 
   /* Do not consider shared trees */
-- 
2.43.0


From 0819ebf216ec0104b9c705c6fe1b4a392d3aeb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:23 +0000
Subject: [PATCH 14/74] fix: tree range of empty processes in the uniform
 bounds of a partitioned cmesh

---
 src/t8_cmesh/t8_cmesh.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index e99c13f..e4eeeb6 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1791,7 +1791,7 @@ t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_mess
 {
   const t8_gloidx_t global_id_of_first_or_last_tree = first_or_last_puretree_of_iproc
                                                       + t8_cmesh_get_first_treeid (cmesh)
-                                                      + (proc_is_empty ? 0 : first_tree_shared_shift);
+                                                      + first_tree_shared_shift;
   if (iproc != cmesh->mpirank) {
     const int num_entries = 2;
     /* Allocate a new request */
@@ -2281,12 +2281,12 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
     num_message_recv++;
     num_received_start_messages++;
 #endif
-    if (this_proc_is_empty) {
-      /* For an empty proc the last tree is the first_local_tree - 1.
-       * the first local tree has been sent by the next non-empty proc.  */
-      *last_local_tree = *first_local_tree - 1;
-    }
   } /* End receiving start message */
+  if (this_proc_is_empty) {
+    /* For an empty proc the last tree is the first_local_tree - 1.
+     * The first local tree has been computed by the next non-empty proc or by ourselves. */
+    *last_local_tree = *first_local_tree - 1;
+  }
   if (expect_end_message) {
     const int recv_from
       = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize - 1, find_bounds_in_offset);
-- 
2.43.0


From 991789dbea14d1ba3a6e08f452f9ac53b806b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:23 +0000
Subject: [PATCH 15/74] fix: wait for the messages of the uniform bounds of a
 partitioned cmesh

---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index e4eeeb6..99d57e5 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1781,7 +1781,7 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
 static void
 t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
-                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> send_requests,
+                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
                                    const t8_gloidx_t first_or_last_element_in_tree_index_of_iproc,
                                    t8_gloidx_t *first_or_last_local_tree, [[maybe_unused]] int8_t *first_tree_shared,
-- 
2.43.0


From 00fafb543bda7af4270b9c31c37ce8e8444bdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:23 +0000
Subject: [PATCH 16/74] fix: tree range of empty processes in the uniform
 bounds of a replicated cmesh

---
 src/t8_cmesh/t8_cmesh.cxx | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 99d57e5..19559ed 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1665,27 +1665,10 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
      */
   *last_local_tree = -1;  // Initialize for the case of num_trees <= 0
   if (last_child <= first_child) {
-    /* This process is empty. */
-    /* Find the next non-empty proc */
-    int next_non_empty = cmesh->mpirank + 1;
-    t8_gloidx_t first_child_next_non_empty = 0;
-    t8_gloidx_t last_child_next_non_empty = 0;
-    do {
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty + 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      next_non_empty++;
-    } while (last_child_next_non_empty <= first_child_next_non_empty && next_non_empty < cmesh->mpisize - 1);
-
-    if (next_non_empty >= cmesh->mpisize - 1) {
-      next_non_empty = cmesh->mpisize - 1;
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize - 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-    }
-    T8_ASSERT (first_child_next_non_empty < last_child_next_non_empty);
+    /* This process is empty.
+     * All processes up to the next non-empty process are empty, too. Thus, the next non-empty
+     * process starts with our first child. */
+    const t8_gloidx_t first_child_next_non_empty = first_child;
     // Loop over trees to find the one containing first_child_next_non_empty, which gives us the first and last local tree.
     t8_gloidx_t current_tree_element_offset = 0;
     for (t8_gloidx_t igtree = 0; igtree < num_trees; ++igtree) {
@@ -1700,11 +1683,15 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
         /* We have found the first tree; since this process is empty, we can immediately return,
            * ending the for loop. */
         *first_local_tree = igtree;
-        *last_local_tree = igtree - 1;
-        /* If our first element is not the very first element in the tree, we share
-           * this tree with the previous process. */
+        if (current_tree_element_offset < first_child_next_non_empty) {
+          /* The next non-empty process shares this tree with a previous process. Its first tree that
+           * is not shared is the next one. */
+          ++*first_local_tree;
+        }
+        *last_local_tree = *first_local_tree - 1;
+        /* By definition, an empty process does not share its first tree. */
         if (first_tree_shared != nullptr) {
-          *first_tree_shared = current_tree_element_offset < first_child_next_non_empty ? 1 : 0;
+          *first_tree_shared = 0;
         }
       }
       current_tree_element_offset += num_leaf_elems_in_tree;
-- 
2.43.0


From 8ab7d18a9205f4b7bad70449426df94707224c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:23 +0000
Subject: [PATCH 17/74] fix: rounding error in the owner process of an element
 of a uniform partition

---
 src/t8_cmesh/t8_cmesh.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 19559ed..653149d 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1620,8 +1620,21 @@ t8_cmesh_determine_partition (const t8_gloidx_t element_index, const t8_gloidx_t
   else {
     /*Use the mirror_element_index to map the whole range of [first_elem_of_iproc, last_elem_of_iproc) to first_proc*/
     const t8_gloidx_t mirror_element_index = global_num_elements - element_index - 1;
-    const int first_proc_rank
+    int first_proc_rank
       = num_procs - 1 - t8_A_times_B_over_C_intA (num_procs, mirror_element_index, global_num_elements);
+    /* The floating point division above may be rounded across an integer. Correct the rank in that case. */
+    while (first_proc_rank > 0
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                > (uint64_t) element_index) {
+      --first_proc_rank;
+    }
+    while (first_proc_rank < num_procs - 1
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank + 1, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                <= (uint64_t) element_index) {
+      ++first_proc_rank;
+    }
     const int first_proc_adjusted = first_proc_rank - process_offset;
 #if T8_ENABLE_DEBUG
     T8_ASSERT (0 <= first_proc_rank && first_proc_rank < num_procs);
-- 
2.43.0


From 6c7b37daa4674717b3423f717aad277f5b19d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 18/74] fix: join faces whose coordinates round to different
 bins

---
 src/t8_cmesh/t8_cmesh_helpers.cxx | 40 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_helpers.cxx b/src/t8_cmesh/t8_cmesh_helpers.cxx
index d3ef1bb..70ba2e1 100644
--- a/src/t8_cmesh/t8_cmesh_helpers.cxx
+++ b/src/t8_cmesh/t8_cmesh_helpers.cxx
@@ -72,14 +72,8 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
   /* Scaled tolerance to decide if two doubles are equal. */
   const double tolerance = 10.0 * T8_PRECISION_EPS * std::abs (max_coord - min_coord);
 
-  /* Setup hash table `faces` mapping a hash key to a pair containing `(itree, iface)`. */
-  std::multimap<unsigned long, std::pair<int, int>> faces;
-
-  /* `num_bins` should be more than enough for (almost) all cases.
-   * I.e., 2^P4EST_QMAXLEVEL =~ 1.073e9.
-   */
-  const double num_bins = 1e9; /* Number of bins. */
-  const double inverse_bin_size = num_bins / (max_coord - min_coord);
+  /* Setup the ordered table `faces` mapping a key to a pair containing `(itree, iface)`. */
+  std::multimap<double, std::pair<int, int>> faces;
 
   for (int itree = 0; itree < ntrees; itree++) {
     const t8_eclass_t eclass = eclasses[itree];
@@ -92,9 +86,10 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
       /* Get the number of vertices per face of this element. */
       const int nface_verts = t8_eclass_num_vertices[t8_eclass_face_types[eclass][iface]];
 
-      /* Compute the hash key. The idea is to convert the rescaled vertices of a tree face to
-       * long integers and add them up. We apply a bit of seeding by also adding `icoord`. See below. */
-      unsigned long hash = 0;
+      /* Compute the key. The idea is to add up the coordinates of the face's vertices relative to the
+       * minimum of the domain. */
+      double key = 0;
+      double magnitude = 0;
 
       /* Loop over the vertices of the current element's face. */
       for (int iface_vert = 0; iface_vert < nface_verts; iface_vert++) {
@@ -103,16 +98,21 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
 
         for (int icoord = 0; icoord < T8_ECLASS_MAX_DIM; icoord++) {
           const int index = T8_3D_TO_1D (ntrees, T8_ECLASS_MAX_CORNERS, T8_ECLASS_MAX_DIM, itree, ivert, icoord);
-          const double rescaled = (vertices[index] - min_coord) * inverse_bin_size;
+          const double shifted = vertices[index] - min_coord;
 
-          /* Simple hash function. */
-          hash = hash + icoord + static_cast<unsigned long> (rescaled + 0.5);
+          key += shifted;
+          magnitude += std::abs (shifted);
         }
       }
 
-      /* Loop over all pre-registered faces with the same hash. */
-      auto range = faces.equal_range (hash);
-      for (auto it = range.first; it != range.second; ++it) {
+      /* The keys of two matching faces differ at most by the tolerances of their coordinates and the rounding
+       * errors of the sums. A lookup by rounded keys would miss matches on both sides of a rounding boundary. */
+      const double key_tolerance
+        = 2.0 * T8_ECLASS_MAX_DIM * nface_verts * (tolerance + T8_PRECISION_EPS * magnitude);
+
+      /* Loop over all pre-registered faces with the same key. */
+      const auto last = faces.upper_bound (key + key_tolerance);
+      for (auto it = faces.lower_bound (key - key_tolerance); it != last; ++it) {
         /* Query potentially neighboring `itree` and `iface`. */
         const int neigh_itree = std::get<0> (it->second);
         const int neigh_iface = std::get<1> (it->second);
@@ -222,10 +222,10 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
 
           break;
         }
-      } /* Loop over faces with identical hash. */
+      } /* Loop over faces with identical key. */
 
-      /* Register the current pair of `itree` and `iface` with given `hash` in the hash table. */
-      faces.insert (std::make_pair (hash, std::make_pair (itree, iface)));
+      /* Register the current pair of `itree` and `iface` with given `key`. */
+      faces.insert (std::make_pair (key, std::make_pair (itree, iface)));
     } /* Loop over faces. */
   }   /* Loop over trees. */
 
-- 
2.43.0


From 85435e391df28964f5be84876293d056a70afe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:00 +0000
Subject: [PATCH 19/74] fix: length of the line trees of a padded hypercube

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index afe23d4..42bd30b 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1362,11 +1362,8 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
     /* Get the direction of the line */
     double line_dir[3];
     t8_axpyz (boundary, boundary + 3, line_dir, -1.0);
-    /* Get length of one tree */
-    double length;
-    length = t8_norm (line_dir) / (double) polygons_x;
-    //length = t8_dist (boundary, boundary + 3) / length;
-    t8_ax (line_dir, length);
+    /* Divide it by the number of trees */
+    t8_ax (line_dir, 1.0 / (double) polygons_x);
 
     double vertices[6];
     /* Set first vertex to lower end of line */
-- 
2.43.0


From 0cf0afa56e0030c8d7e674240f17f7cc582274fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:00 +0000
Subject: [PATCH 20/74] fix: tree offset of a z-connection of tetrahedra in a
 padded hypercube

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 42bd30b..03c63c4 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1484,7 +1484,7 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
           t8_locidx_t tree_id_0 = poly_id * 6 + 5;
           t8_locidx_t tree_id_1
             = poly_z_id == polygons_z - 1 ? base_id * 6 + 1 : (poly_id + polygons_y * polygons_x) * 6 + 1;
-          t8_cmesh_set_join (cmesh, tree_id_0, tree_id_1, 0, 3, 2);
+          t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 2);
           tree_id_0 = poly_id * 6 + 4;
           tree_id_1 = poly_z_id == polygons_z - 1 ? base_id * 6 + 2 : (poly_id + polygons_y * polygons_x) * 6 + 2;
           t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 0);
-- 
2.43.0


From 384f0b6e6a25c1418cee1adcc3d426110f54ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:00 +0000
Subject: [PATCH 21/74] fix: connect the touching faces of a row of cubes

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 03c63c4..9f52f75 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2894,7 +2894,7 @@ t8_cmesh_new_row_of_cubes (t8_cmesh_t cmesh, t8_locidx_t num_trees, const int se
 
   /* Join the hexes. */
   for (t8_locidx_t tree_id = 0; tree_id < num_trees - 1; tree_id++) {
-    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 0, 1, 0);
+    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 1, 0, 0);
   }
 
   /* Check whether the cmesh will be partitioed */
-- 
2.43.0


From 156b5564e05a3f9a3de12463f30de9144b01d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:00 +0000
Subject: [PATCH 22/74] fix: face connections of the long brick of pyramids

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 9f52f75..5823456 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2804,19 +2804,19 @@ t8_cmesh_new_long_brick_pyramid (t8_cmesh_t cmesh, sc_MPI_Comm comm, int num_cub
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 2, 2, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 1, 2, 1);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 0, 1, 0);
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 3, 0);
     }
   }
   /* over cube face connection */
   for (current_cube = 0; current_cube < num_cubes - 1; current_cube++) {
     if (current_cube % 2 == 0) {
-      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 2, 0, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 3, 3, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 1, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 1);
     }
   }
   /* vertices */
-- 
2.43.0


From 8d49e57b2f8ee71d4f1089208be9be9f999157ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:00 +0000
Subject: [PATCH 23/74] fix: face connections of prismed spherical shells with
 more than one layer

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 5823456..d192c9c 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -3477,8 +3477,8 @@ t8_cmesh_new_spherical_shell (t8_cmesh_t cmesh, t8_eclass_t eclass, t8_geometry_
       /* Transfer the coordinates from the 2D forest mesh to the cmesh via stacking 3D elements along radial direction. */
       for (int istack = 0; istack < num_layers; istack++) {
         {
-          const double iscale = 1.0 + istack / num_layers;
-          const double oscale = 1.0 + (istack + 1) / num_layers;
+          const double iscale = 1.0 + istack / (double) num_layers;
+          const double oscale = 1.0 + (istack + 1) / (double) num_layers;
 
           double elem_vertices_3d[T8_ECLASS_MAX_CORNERS * 3];
           for (int ivert = 0; ivert < t8_eclass_num_vertices[eclass_2d]; ivert++) {
-- 
2.43.0


From 0874e69425e319f271ef57c2d66edab3da4c9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:00 +0000
Subject: [PATCH 24/74] fix: disjoint bricks with processes that have no trees

An empty process registered an unpartitioned mesh without dimension, and a
debug-only collective call in the padded hypercube was not reached by it.
---
 src/t8_cmesh/t8_cmesh_examples.cxx | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index d192c9c..e26dbd2 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1521,16 +1521,9 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
       /* Set the partition (with offsets) */
       t8_cmesh_set_partition_range (cmesh, 3, first_tree, last_tree);
 
-#if T8_ENABLE_DEBUG
-      t8_gloidx_t num_global_trees;
-      /* The global number of trees is the sum over all numbers of trees in conn on each process */
-      int mpiret = sc_MPI_Allreduce (&num_local_trees, &num_global_trees, 1, T8_MPI_GLOIDX, sc_MPI_SUM, comm);
-      SC_CHECK_MPI (mpiret);
-
       t8_debugf ("Generating partitioned cmesh from connectivity\n"
-                 "Has %li global and %li local trees.\n",
-                 num_global_trees, num_local_trees);
-#endif
+                 "Has %li local trees.\n",
+                 (long) num_local_trees);
     }
   }
 
@@ -1685,12 +1678,10 @@ t8_cmesh_new_disjoint_bricks (t8_cmesh_t cmesh, t8_gloidx_t num_x, t8_gloidx_t n
     }
   }
   else {
-    num_x = num_y = num_z = 0;
-    num_trees = 0;
-    offset = 0;
-
-    /* Create empty cmesh. */
+    /* Create an empty local part. */
     t8_cmesh_register_geometry<t8_geometry_linear> (cmesh);
+    t8_cmesh_set_dimension (cmesh, dim);
+    t8_cmesh_set_partition_range (cmesh, 3, offset, offset - 1);
     t8_cmesh_commit (cmesh, comm);
   }
 }
-- 
2.43.0


From ceec89514c706cbdfbfc0fbbc7cc19b70be73914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 25/74] fix: orientation of the periodic face connections of
 the triangle and prism hypercubes

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index e26dbd2..41488c4 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -773,7 +773,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 6);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
         t8_cmesh_set_join (cmesh, 0, 0, 3, 4, 0);
         t8_cmesh_set_join (cmesh, 1, 1, 3, 4, 0);
       }
@@ -791,7 +791,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 3);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
       }
       break;
     case T8_ECLASS_TET:
-- 
2.43.0


From 0d4d6c7ad2e272ca98128f2f567e44436c9a1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:52 +0000
Subject: [PATCH 26/74] fix: face connections of the prism cake with rotated
 prisms

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 41488c4..f893bee 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2095,12 +2095,12 @@ t8_cmesh_new_prism_cake_funny_oriented (t8_cmesh_t cmesh, sc_MPI_Comm comm)
     t8_cmesh_set_tree_class (cmesh, i, T8_ECLASS_PRISM);
   }
 
-  t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 3);
-  t8_cmesh_set_join (cmesh, 1, 2, 1, 2, 0);
-  t8_cmesh_set_join (cmesh, 2, 3, 0, 0, 0);
-  t8_cmesh_set_join (cmesh, 3, 4, 1, 0, 0);
-  t8_cmesh_set_join (cmesh, 4, 5, 2, 2, 0);
-  t8_cmesh_set_join (cmesh, 5, 0, 1, 1, 0);
+  t8_cmesh_set_join (cmesh, 0, 1, 1, 1, 1);
+  t8_cmesh_set_join (cmesh, 1, 2, 0, 0, 1);
+  t8_cmesh_set_join (cmesh, 2, 3, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 3, 4, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 4, 5, 2, 1, 0);
+  t8_cmesh_set_join (cmesh, 5, 0, 0, 2, 1);
 
   for (i = 0; i < 6; i++) {
     t8_cmesh_set_tree_vertices (cmesh, i, vertices + i * 18, 6);
-- 
2.43.0


From 553071e324c172f35fe055bd876d8d7674edc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 27/74] fix: distinct global vertex ids for the nodes of a msh
 file

The node tags of a msh file need not be consecutive; taken modulo the number
of nodes, different nodes got the same global vertex id.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index af46d40..99fdb70 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1382,7 +1382,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           tree_vertices[3 * i_node] = tree_nodes[i_node].coordinates[0];
           tree_vertices[3 * i_node + 1] = tree_nodes[i_node].coordinates[1];
           tree_vertices[3 * i_node + 2] = tree_nodes[i_node].coordinates[2];
-          global_id_of_node[i_node] = tree_nodes[i_node].index % vertices.size ();
+          global_id_of_node[i_node] = tree_nodes[i_node].index;
         }
         t8_cmesh_set_tree_vertices (cmesh, tree_count, tree_vertices.data (), num_nodes);
         t8_cmesh_set_global_vertices_of_tree (cmesh, tree_count, global_id_of_node, num_nodes);
-- 
2.43.0


From 29f5c256ea7fb863128ef6f28ed219275ecd31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 28/74] fix: store the parameters of all nodes of a tree read
 from a msh file

The size of the attribute was computed with the size of an int.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 99fdb70..5ea3e97 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -559,8 +559,8 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                             std::array<t8_msh_file_node, T8_ECLASS_MAX_CORNERS> *tree_nodes, int num_nodes)
 {
 
-  int entity_dim_array[T8_ECLASS_MAX_CORNERS * 2];
-  double parameter_array[T8_ECLASS_MAX_CORNERS * 2];
+  int entity_dim_array[T8_ECLASS_MAX_CORNERS * 2] = {};
+  double parameter_array[T8_ECLASS_MAX_CORNERS * 2] = {};
 
   for (int node_i = 0; node_i < num_nodes; node_i++) {
     t8_msh_file_node &current_node = (*tree_nodes)[node_i];
@@ -580,7 +580,7 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                           entity_dim_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
 
   t8_cmesh_set_attribute (cmesh, tree_count, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY,
-                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
+                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (double), 0);
 }
 
 #if T8_ENABLE_OCC
-- 
2.43.0


From 89b6b13a93f0c884ecc0382f3a3146321a9d705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 29/74] fix: do not destroy the cmesh twice if the elements of
 a msh file cannot be read

The caller destroys the cmesh as well.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 5ea3e97..f3d6300 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1255,7 +1255,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Premature end of line while reading num trees.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
   }
@@ -1270,7 +1269,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     t8_global_errorf ("Premature end of line while reading num trees and num blocks.\n");
     t8_debugf ("The line is %s", line);
     free (line);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   num_trees = lnum_trees;
@@ -1288,7 +1286,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     if (retval < 0) {
       t8_global_errorf ("Premature end of line while reading trees.\n");
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     retval = sscanf (line, "%i %li %i %li", &entity_dim, &entity_tag, &ele_type, &num_ele_in_block);
@@ -1297,7 +1294,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Error while reading element block information.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     /* Check if the tree type is supported */
@@ -1305,7 +1301,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         || t8_msh_tree_type_to_eclass[ele_type] == T8_ECLASS_COUNT) {
       t8_global_errorf ("tree type %i is not supported by t8code.\n", ele_type);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     eclass = t8_msh_tree_type_to_eclass[ele_type];
@@ -1325,7 +1320,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
       }
@@ -1337,7 +1331,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
         t8_cmesh_set_tree_class (cmesh, tree_count, eclass);
@@ -1363,7 +1356,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
           /* Get node from the hashtable */
@@ -1403,7 +1395,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           if (!t8_cmesh_process_tree_geometry (cmesh, eclass, dim, tree_count, cad_geometry_base, linear_geometry_base,
                                                tree_nodes)) {
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
 
@@ -1417,7 +1408,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   free (line);
   if (tree_count == 0) {
     t8_global_errorf ("Warning: No %iD elements found in msh file.\n", dim);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   return std::make_optional<t8_msh_tree_vertex_indices> (vertex_indices);
-- 
2.43.0


From 082cce6aff6b45c337d8d3504860f1acfd7b4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 30/74] fix: check the numbers of nodes given in a msh file

Invalid numbers led to a division by zero or to huge allocations, and the
index buffer was leaked on errors.
---
 .../t8_cmesh_io/t8_cmesh_readmshfile.cxx      | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index f3d6300..6788949 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -397,6 +397,18 @@ die_format:
   return -1;
 }
 
+/* Return the size of an open file in bytes. Every node and every element takes more than one byte,
+ * so this is an upper bound for their number. */
+static long
+t8_cmesh_msh_file_size (FILE *fp)
+{
+  const long position = ftell (fp);
+  fseek (fp, 0, SEEK_END);
+  const long size = ftell (fp);
+  fseek (fp, position, SEEK_SET);
+  return size;
+}
+
 /* Read an open .msh file of version 4 and parse the nodes into a hash table. */
 static std::optional<t8_msh_node_table>
 t8_msh_file_4_read_nodes (FILE *fp)
@@ -407,7 +419,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
   size_t linen = 1024;
   int retval;
   long num_nodes_in_block, lnum_nodes, lnum_blocks;
-  long *index_buffer;
+  std::vector<long> index_buffer;
 
   T8_ASSERT (fp != NULL);
   /* Go to the beginning of the file */
@@ -439,6 +451,12 @@ t8_msh_file_4_read_nodes (FILE *fp)
     return std::nullopt;
   }
 
+  if (lnum_nodes <= 0 || lnum_nodes > t8_cmesh_msh_file_size (fp)) {
+    t8_global_errorf ("Invalid number of nodes %li.\n", lnum_nodes);
+    free (line);
+    return std::nullopt;
+  }
+
   /* Create the hash table */
   t8_msh_node_hasher const hasher (lnum_nodes);
   t8_msh_node_table node_table (lnum_nodes, hasher);
@@ -464,7 +482,12 @@ t8_msh_file_4_read_nodes (FILE *fp)
       return std::nullopt;
     }
     /* Read all node indices in this block */
-    index_buffer = T8_ALLOC (long, num_nodes_in_block);
+    if (num_nodes_in_block < 0 || num_nodes_in_block > lnum_nodes) {
+      t8_global_errorf ("Invalid number of nodes %li in a block of the $Nodes section.\n", num_nodes_in_block);
+      free (line);
+      return std::nullopt;
+    }
+    index_buffer.resize (num_nodes_in_block);
     for (ln = 0; ln < num_nodes_in_block; ++ln) {
       retval = t8_cmesh_msh_read_next_line (&line, &linen, fp);
       if (retval < 0) {
@@ -539,7 +562,6 @@ t8_msh_file_4_read_nodes (FILE *fp)
       T8_ASSERT (emplaced.first->index == index_buffer[ln]);
       last_index = index_buffer[ln];
     }
-    T8_FREE (index_buffer);
   }
   free (line);
   t8_debugf ("Successfully read all Nodes.\n");
-- 
2.43.0


From 2fe5a0e35d4d7c0bb0080e4a47c5e7a3da620dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 31/74] fix: check the numbers of elements given in a msh file

More elements than announced were written past the end of the vertex indices.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 6788949..04f7759 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1261,6 +1261,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   int ele_type;
   int entity_dim;
   long num_ele_in_block;
+  long num_ele_read = 0;
   std::array<t8_msh_file_node, T8_ECLASS_MAX_CORNERS> tree_nodes;
   std::array<double, T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM> tree_vertices;
   t8_gloidx_t global_id_of_node[T8_ECLASS_MAX_CORNERS];
@@ -1293,6 +1294,11 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     free (line);
     return std::nullopt;
   }
+  if (lnum_trees < 0 || lnum_trees > t8_cmesh_msh_file_size (fp)) {
+    t8_global_errorf ("Invalid number of elements %li.\n", lnum_trees);
+    free (line);
+    return std::nullopt;
+  }
   num_trees = lnum_trees;
   /* Check for type conversion error */
   T8_ASSERT (num_trees == lnum_trees);
@@ -1318,6 +1324,13 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       free (line);
       return std::nullopt;
     }
+    /* Check that this block does not exceed the number of elements of the file */
+    if (num_ele_in_block < 0 || num_ele_in_block > lnum_trees - num_ele_read) {
+      t8_global_errorf ("Invalid number of elements %li in a block of the $Elements section.\n", num_ele_in_block);
+      free (line);
+      return std::nullopt;
+    }
+    num_ele_read += num_ele_in_block;
     /* Check if the tree type is supported */
     if (ele_type > T8_NUM_GMSH_ELEM_CLASSES || ele_type < 0
         || t8_msh_tree_type_to_eclass[ele_type] == T8_ECLASS_COUNT) {
-- 
2.43.0


From f7bf7c8211a98084065a2c80d0f2df9e655774b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 32/74] fix: read element lines of a msh file word by word

A line with too few nodes dereferenced a NULL pointer, and words that are not
separated by exactly one blank were read twice.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 04f7759..67034c1 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1376,17 +1376,17 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
          * We ignore the tree number and read the nodes.
          */
         line_modify = line;
-        T8_ASSERT (strcmp (line_modify, "\0"));
+        int num_chars = 0;
+        retval = sscanf (line_modify, "%*s%n", &num_chars);
         /* move line_modify to the next word in the line */
-        (void) strsep (&line_modify, " ");
+        line_modify += num_chars;
 
         /* At this point line_modify contains only the node indices. */
         const int num_nodes = t8_eclass_num_vertices[eclass];
         std::vector<t8_gloidx_t> node_indices (num_nodes, -1);
         for (int i_node = 0; i_node < num_nodes; i_node++) {
           const int t8_vertex_num = t8_msh_tree_vertex_to_t8_vertex_num[eclass][i_node];
-          T8_ASSERT (strcmp (line_modify, "\0"));
-          retval = sscanf (line_modify, "%" T8_GLOIDX_FORMAT, &node_indices[t8_vertex_num]);
+          retval = sscanf (line_modify, "%" T8_GLOIDX_FORMAT "%n", &node_indices[t8_vertex_num], &num_chars);
           if (retval != 1) {
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
@@ -1398,7 +1398,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           tree_nodes[t8_vertex_num] = *vertices.find (Node);
 
           /* move line_modify to the next word in the line */
-          (void) strsep (&line_modify, " ");
+          line_modify += num_chars;
         }
 
         /* Add the node indices to return vector. */
-- 
2.43.0


From d6fd15a241722b75e0089d8e8eae45dd0b963fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 33/74] fix: refuse a msh file with an element whose node is
 not defined

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 67034c1..aa9cfc8 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1395,7 +1395,13 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           }
           /* Get node from the hashtable */
           Node.index = node_indices[t8_vertex_num];
-          tree_nodes[t8_vertex_num] = *vertices.find (Node);
+          const auto found_node = vertices.find (Node);
+          if (found_node == vertices.end ()) {
+            t8_global_errorf ("Node %" T8_GLOIDX_FORMAT " of an element is not defined.\n", Node.index);
+            free (line);
+            return std::nullopt;
+          }
+          tree_nodes[t8_vertex_num] = *found_node;
 
           /* move line_modify to the next word in the line */
           line_modify += num_chars;
-- 
2.43.0


From 9c0c417eb2b84111871a1db5ed01f9201ed3bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:10 +0000
Subject: [PATCH 34/74] fix: refuse a msh file with an element that has the
 same node twice

Two faces of such an element may have equal nodes and were joined to each
other with an undefined orientation.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index aa9cfc8..507d36e 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -34,6 +34,7 @@
 #endif
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h>
+#include <algorithm>
 #include <unordered_set>
 #include <optional>
 #include <vector>
@@ -1393,6 +1394,11 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
             free (line);
             return std::nullopt;
           }
+          if (std::count (node_indices.begin (), node_indices.end (), node_indices[t8_vertex_num]) > 1) {
+            t8_global_errorf ("Node %" T8_GLOIDX_FORMAT " appears twice in an element.\n", node_indices[t8_vertex_num]);
+            free (line);
+            return std::nullopt;
+          }
           /* Get node from the hashtable */
           Node.index = node_indices[t8_vertex_num];
           const auto found_node = vertices.find (Node);
-- 
2.43.0


From 441ad86d572ee572e40742c38872e6d30a898762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:01 +0000
Subject: [PATCH 35/74] fix: do not parse an uninitialized line at the end of a
 msh file

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 507d36e..ccd0f7b 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -123,6 +123,8 @@ t8_cmesh_msh_read_next_line (char **line, size_t *n, FILE *fp)
      *       p4est therefore has its own getline function in p4est_connectivity.h. */
     retval = getline (line, n, fp);
     if (retval < 0) {
+      /* Do not leave a previous line or uninitialized memory to the caller. */
+      (*line)[0] = '\0';
       return retval;
     }
   }
-- 
2.43.0


From 45ef74e39aa05e282c6bbc04ed9ac29a64d67df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:33 +0000
Subject: [PATCH 36/74] fix: edges of a prism that are incident to the vertices
 of a face

The table listed edges that do not contain the vertex.
---
 src/t8_eclass/t8_eclass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_eclass/t8_eclass.h b/src/t8_eclass/t8_eclass.h
index 82f8369..07ca827 100644
--- a/src/t8_eclass/t8_eclass.h
+++ b/src/t8_eclass/t8_eclass.h
@@ -126,7 +126,7 @@ typedef enum t8_eclass {
   { { 2, 1 }, { 2, 0 }, { 1, 0 } },                                                                       /* triangle */  \
   { { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 }, { 4, 5, 6, 7 }, { 8, 9, 10, 11 }, { 8, 9, 10, 11 } }, /* hex */       \
   { { 0, 1, 2 }, { 0, 3, 4 }, { 1, 3, 5 }, { 2, 4, 5 } },                                                 /* tet */       \
-  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 6, 7, 8 }, { 6, 7, 8 } },                           /* prism */     \
+  { { 2, 1, 5, 4 }, { 2, 0, 5, 3 }, { 1, 0, 4, 3 }, { 8, 6, 7 }, { 8, 6, 7 } },                           /* prism */     \
   { { -1 } },                                                                                             /* pyramid */   \
 }
 /** Mapping of edge vertex to tree vertex for each eclass. */
-- 
2.43.0


From ee790ea16737fe32d676cdd4ff19d271d4745ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:33 +0000
Subject: [PATCH 37/74] fix: orthogonal tripod of vectors parallel to (1,-1,1)

The second vector was parallel to the first one, so that the tripod was
degenerate (division by zero).
---
 src/t8_types/t8_vec.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_types/t8_vec.hxx b/src/t8_types/t8_vec.hxx
index eba279d..2c6282c 100644
--- a/src/t8_types/t8_vec.hxx
+++ b/src/t8_types/t8_vec.hxx
@@ -299,7 +299,8 @@ t8_orthogonal_tripod (const TVecV1 &v1, TVecV2 &v2, TVecV3 &v3)
 
   v2[0] = v1[1];
   v2[1] = v1[2];
-  v2[2] = -v1[0];
+  /* Choose the sign such that v2 is never parallel to v1. */
+  v2[2] = v1[0] * v1[1] < 0 ? v1[0] : -v1[0];
 
   t8_axpy (v1, v2, -t8_dot (v1, v2) / t8_dot (v1, v1));
   t8_cross_3D (v1, v2, v3);
-- 
2.43.0


From bb935e455d43ccf554869d27720f0ed0c61cc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:55 +0000
Subject: [PATCH 38/74] fix: keep elements at the maximum level in recursive
 adaptation

If the adapt callback asked to refine an element that cannot be refined any
further (maximum level reached or not refinable), the recursive refinement
neither refined it nor added it to the new forest: the element was lost, and
its memory leaked.
---
 src/t8_forest/t8_forest_adapt.cxx | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index 1c8e00d..aa1bfc5 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -346,17 +346,15 @@ t8_forest_adapt_refine_recursive (t8_forest_t forest, t8_locidx_t ltreeid, t8_ec
     const int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme,
                                              is_family, num_elements_to_adapt_callback, el_buffer);
     T8_ASSERT (refine != -1);
-    if (refine == 1) {
-      /* The element should be refined */
-      if (scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
-          && scheme->element_is_refinable (tree_class, el_buffer[0])) {
-        /* only refine if element is refinable and if we do not exceed the maximum allowed level */
-        /* Create the children and add them to the list */
-        scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
-        scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
-        for (int ci = num_children - 1; ci >= 0; ci--) {
-          (void) sc_list_prepend (elem_list, el_buffer[ci]);
-        }
+    if (refine == 1 && scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
+        && scheme->element_is_refinable (tree_class, el_buffer[0])) {
+      /* The element should be refined.
+       * Only refine if element is refinable and if we do not exceed the maximum allowed level */
+      /* Create the children and add them to the list */
+      scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
+      scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
+      for (int ci = num_children - 1; ci >= 0; ci--) {
+        (void) sc_list_prepend (elem_list, el_buffer[ci]);
       }
     }
     else if (refine == -2) {
@@ -366,8 +364,8 @@ t8_forest_adapt_refine_recursive (t8_forest_t forest, t8_locidx_t ltreeid, t8_ec
       scheme->element_destroy (tree_class, 1, el_buffer);
     }
     else {
-      T8_ASSERT (refine == 0);
-      /* This element should not get refined,
+      T8_ASSERT (refine == 0 || refine == 1);
+      /* This element should not or cannot get refined,
        * we remove it from the buffer and add it to the array of new elements. */
       t8_element_t *insert_el = t8_element_array_push (telements);
       scheme->element_copy (tree_class, el_buffer[0], insert_el);
-- 
2.43.0


From 3941dcb63bdb55792b2fb389ee1a9a07eb1f9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:50 +0000
Subject: [PATCH 39/74] fix: find the remote processes in the iterative ghost
 algorithms

Since half face neighbors were constructed but never used, the ghost algorithms
1 and 2 of t8_forest_set_ghost_ext always created an empty ghost layer and lost
the memory of the half neighbors.  Elements of maximum level used an
uninitialised array.
---
 src/t8_forest/t8_forest_ghost.cxx | 73 ++++++++++++++++---------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index f8c6230..ba9f6fc 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -825,21 +825,16 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
   t8_locidx_t num_local_trees, num_tree_elems;
   t8_locidx_t itree, ielem;
   t8_tree_t tree;
-  t8_eclass_t last_class;
 
   int iface, num_faces;
-  int num_face_children, max_num_face_children = 0;
+  int num_face_children;
   int owner;
-  sc_array_t owners, tree_owners;
+  sc_array_t owners;
   int is_atom;
   const t8_scheme *scheme = t8_forest_get_scheme (forest);
 
-  last_class = T8_ECLASS_COUNT;
   num_local_trees = t8_forest_get_num_local_trees (forest);
-  if (ghost_method != 0) {
-    sc_array_init (&owners, sizeof (int));
-    sc_array_init (&tree_owners, sizeof (int));
-  }
+  sc_array_init (&owners, sizeof (int));
 
   /* Loop over the trees of the forest */
   for (itree = 0; itree < num_local_trees; itree++) {
@@ -864,40 +859,49 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       for (iface = 0; iface < num_faces; iface++) {
         /* Get the element class of the neighbor tree */
         const t8_eclass_t neigh_class = t8_forest_element_neighbor_eclass (forest, itree, elem, iface);
-        if (ghost_method == 0) {
+        if (neigh_class == T8_ECLASS_INVALID) {
+          /* This face is at the domain boundary, there are no neighbors. */
+          continue;
+        }
+        if (ghost_method == 0 && !is_atom) {
           /* Use half neighbors */
           /* Get the number of face children of the element at this face */
           num_face_children = scheme->element_get_num_face_children (tree_class, elem, iface);
-          /* regrow the half_neighbors array if necessary.
-           * We also need to reallocate it, if the element class of the neighbor
-           * changes */
-          if (max_num_face_children < num_face_children || last_class != neigh_class) {
-            half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
-            /* Allocate memory for the half size face neighbors */
-            scheme->element_new (neigh_class, num_face_children, half_neighbors);
-            max_num_face_children = num_face_children;
-            last_class = neigh_class;
-          }
-          if (!is_atom) {
-            /* Construct each half size neighbor */
-            (void) t8_forest_element_half_face_neighbors (forest, itree, elem, half_neighbors, neigh_class, iface,
-                                                          num_face_children, nullptr);
-          }
-          else {
-            /* Construct the owners at the face of the neighbor element */
-            t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
-            /* Iterate over all owners and if any is not the current process,
-            * add this element as remote */
-            for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
-              owner = *(int *) sc_array_index (&owners, iowner);
+          /* Allocate memory for the half size face neighbors */
+          half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
+          scheme->element_new (neigh_class, num_face_children, half_neighbors);
+          /* Construct each half size neighbor */
+          const t8_gloidx_t neighbor_tree = t8_forest_element_half_face_neighbors (
+            forest, itree, elem, half_neighbors, neigh_class, iface, num_face_children, nullptr);
+          if (neighbor_tree >= 0) {
+            /* There exist face neighbor elements (we are not at a domain boundary).
+             * Find the owner process of each of them. */
+            for (int ichild = 0; ichild < num_face_children; ichild++) {
+              owner = t8_forest_element_find_owner (forest, neighbor_tree, half_neighbors[ichild], neigh_class);
               T8_ASSERT (0 <= owner && owner < forest->mpisize);
               if (owner != forest->mpirank) {
                 /* Add the element as a remote element */
                 t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
               }
             }
-            sc_array_truncate (&owners);
           }
+          scheme->element_destroy (neigh_class, num_face_children, half_neighbors);
+          T8_FREE (half_neighbors);
+        }
+        else {
+          /* Construct the owners at the face of the neighbor element */
+          t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
+          /* Iterate over all owners and if any is not the current process,
+           * add this element as remote */
+          for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
+            owner = *(int *) sc_array_index (&owners, iowner);
+            T8_ASSERT (0 <= owner && owner < forest->mpisize);
+            if (owner != forest->mpirank) {
+              /* Add the element as a remote element */
+              t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
+            }
+          }
+          sc_array_truncate (&owners);
         }
       } /* end face loop */
     }   /* end element loop */
@@ -908,10 +912,7 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
     forest->profile->ghosts_remotes = ghost->remote_processes->elem_count;
   }
   /* Clean-up memory */
-  if (ghost_method != 0) {
-    sc_array_reset (&owners);
-    sc_array_reset (&tree_owners);
-  }
+  sc_array_reset (&owners);
 }
 
 /** 
-- 
2.43.0


From 5f9f2016019b0a3dfe31e07e859e5fe29530d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:46 +0000
Subject: [PATCH 40/74] fix: face descendants of pyramid elements on their own
 level

The descendant of a tetrahedral element of a pyramid at corner 1 or 2 was left
uninitialised if the element already had the level of the descendant.
---
 src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..252e3e7 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -957,6 +957,8 @@ t8_dpyramid_corner_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const i
       t8_dpyramid_child (&tmp, child_id, d);
       t8_dpyramid_copy (d, &tmp);
     }
+    /* If p already has the given level, it is its own descendant. */
+    t8_dpyramid_copy (&tmp, d);
   }
   else {
     /*corner == 3 */
-- 
2.43.0


From 25a5acb5474a91794013bd2575913b5be354a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:46 +0000
Subject: [PATCH 41/74] fix: free the parent elements in the sibling search for
 a root element

t8_forest_pfc_extreme_local_sibling returned without destroying its temporary
elements if the start element has level zero.
---
 src/t8_forest/t8_forest_pfc_helper.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_forest/t8_forest_pfc_helper.cxx b/src/t8_forest/t8_forest_pfc_helper.cxx
index 93b62f4..09fc134 100644
--- a/src/t8_forest/t8_forest_pfc_helper.cxx
+++ b/src/t8_forest/t8_forest_pfc_helper.cxx
@@ -52,6 +52,8 @@ t8_forest_pfc_extreme_local_sibling (const t8_scheme_c *scheme, const t8_tree_t
 
   // If the start element is of level zero, i.e., the root, it does not have any siblings.
   if (scheme->element_get_level (tree_class, start_element) == 0) {
+    t8_element_destroy (scheme, tree_class, 1, &parent_possible_sibling);
+    t8_element_destroy (scheme, tree_class, 1, &parent_start);
     return start_element_id_in_tree;
   }
 
-- 
2.43.0


From e8d529e83e78cce8dcc913b9e4b808fbb518742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:54 +0000
Subject: [PATCH 42/74] fix: keep the send buffers of partition for coarsening
 until they are sent

The buffer of a non-blocking send was freed before the send was completed.
---
 .../t8_forest_partition_for_coarsening.cxx        | 13 +++++++++----
 src/t8_forest/t8_forest_pfc_message.hxx           | 15 ++++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition_for_coarsening.cxx b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
index 986d81a..e8fbea3 100644
--- a/src/t8_forest/t8_forest_partition_for_coarsening.cxx
+++ b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
@@ -112,10 +112,12 @@ get_relevant_process_range (const t8_gloidx_t *partition_old, const t8_procidx_t
  * \param[out]  requests  the MPI requests as std::vector
  *                          on input:  empty
  *                          on output: contains the send requests
+ * \param[out]  send_buffers  the send buffers, must be kept until the requests have been completed
 */
 template <typename MessageType>
 static void
-t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests)
+t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests,
+                               std::vector<std::vector<char>> &send_buffers)
 {
   // Assertions: The forest must be committed and the request vector empty.
   T8_ASSERT (t8_forest_is_committed (forest_from));
@@ -142,10 +144,12 @@ t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI
 
     // Send the message (and obtain the associated requests).
     sc_MPI_Request request;
-    message.mpi_Isend (forest_from, request);
+    std::vector<char> send_buffer;
+    message.mpi_Isend (forest_from, request, send_buffer);
 
-    // Add to requests array
+    // Add to requests array, and keep the buffer (moving the vector does not move its data).
     requests.push_back (std::move (request));
+    send_buffers.push_back (std::move (send_buffer));
   }
 }
 
@@ -383,7 +387,8 @@ t8_forest_pfc_correction_offsets (t8_forest_t forest)
 
     // Send requests to other processes.
     std::vector<sc_MPI_Request> requests;
-    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests);
+    std::vector<std::vector<char>> send_buffers;
+    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests, send_buffers);
 
     // Receive messages from other processes.
     std::vector<t8_forest_pfc_message> messages;
diff --git a/src/t8_forest/t8_forest_pfc_message.hxx b/src/t8_forest/t8_forest_pfc_message.hxx
index 9041e5d..527aeed 100644
--- a/src/t8_forest/t8_forest_pfc_message.hxx
+++ b/src/t8_forest/t8_forest_pfc_message.hxx
@@ -36,6 +36,7 @@
 #include <t8_schemes/t8_scheme.h>
 #include <t8_schemes/t8_scheme.hxx>
 #include <sc_mpi.h>
+#include <vector>
 
 /**
  * This class collects all functionality to handle the data to be sent/received
@@ -144,25 +145,25 @@ struct t8_forest_pfc_message
   /**
    * Send the message using non-blocking MPI send.
    *
-   * \param[in]   forest  the forest (only used for forest->mpicomm)
-   * \param[out]  request the MPI send request
+   * \param[in]   forest       the forest (only used for forest->mpicomm)
+   * \param[out]  request      the MPI send request
+   * \param[out]  send_buffer  the send buffer. It must be kept until the request has been completed.
   */
   void
-  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request)
+  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request, std::vector<char> &send_buffer)
   {
     /* Allocate buffer */
     int buffer_size = pack_size ();
-    char *send_buffer = T8_ALLOC (char, buffer_size);
+    send_buffer.resize (buffer_size);
 
     /* Pack message to buffer */
     int position = 0;
-    pack (send_buffer, buffer_size, &position);
+    pack (send_buffer.data (), buffer_size, &position);
 
     /* Send buffer */
     const int mpiret
-      = sc_MPI_Isend (send_buffer, position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
+      = sc_MPI_Isend (send_buffer.data (), position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
     SC_CHECK_MPI (mpiret);
-    T8_FREE (send_buffer);
   }
 
   /**
-- 
2.43.0


From 2a95302b81783458f9eff41906969ec8b7e79e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:01 +0000
Subject: [PATCH 43/74] fix: rounding errors in the weighted partition

The processes computed the bounds of their slice of the new offsets from
differently rounded sums.  With weights that are not exactly representable an
offset could be missing or written out of bounds.
---
 src/t8_forest/t8_forest_partition.cxx | 51 +++++++++++++++++----------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition.cxx b/src/t8_forest/t8_forest_partition.cxx
index ab37e09..486fdaf 100644
--- a/src/t8_forest/t8_forest_partition.cxx
+++ b/src/t8_forest/t8_forest_partition.cxx
@@ -559,24 +559,36 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
       return local_sum;
     }();
 
-    // Function definition: Partial sum of the partition weights of all lower-rank processes (excluding the local rank).
-    double const partition_weight_offset = [&] () {
-      double local_offset = 0.;
+    // Partial sums of the partition weights: Entry p is the weight of all processes of lower rank than p.
+    // All processes compute them in the same way, such that they agree on every rounding error.
+    std::vector<double> partition_weight_offsets (mpisize + 1, 0.);
+    {
       double local_partition_weight = partition_weight;  // because MPI does not like const variables
-      sc_MPI_Exscan (&local_partition_weight, &local_offset, 1, sc_MPI_DOUBLE, sc_MPI_SUM, comm);
-      return mpirank > 0 ? local_offset : 0;  // because the result of MPI_Exscan is undefined on rank 0
-    }();
+      const int retval = sc_MPI_Allgather (&local_partition_weight, 1, sc_MPI_DOUBLE,
+                                           partition_weight_offsets.data () + 1, 1, sc_MPI_DOUBLE, comm);
+      SC_CHECK_MPI (retval);
+      for (int iproc = 0; iproc < mpisize; ++iproc) {
+        partition_weight_offsets[iproc + 1] += partition_weight_offsets[iproc];
+      }
+    }
+    double const partition_weight_offset = partition_weight_offsets[mpirank];
+    double const forest_weight = partition_weight_offsets[mpisize];
 
-    // Function definition: Complete sum of the partition weights.
-    double const forest_weight = [&] () {
-      double total_weight = partition_weight_offset + partition_weight;
-      sc_MPI_Bcast (&total_weight, 1, sc_MPI_DOUBLE, mpisize - 1, comm);
-      return total_weight;
-    }();
+    // Function definition: The first of the new offsets that lands in the partition of the given process or later ones.
+    auto const first_offset_in_partition = [&] (const int iproc) {
+      if (iproc == mpisize) {
+        return mpisize;
+      }
+      if (partition_weight_offsets[iproc] <= 0.) {
+        return 0;
+      }
+      const double ideal_offset = std::ceil (mpisize * partition_weight_offsets[iproc] / forest_weight);
+      return static_cast<int> (std::min (ideal_offset, static_cast<double> (mpisize)));
+    };
 
     // The [rank_begin, rank_end) slice of the new offsets will land in the local partition.
-    int const rank_begin = std::ceil (mpisize * partition_weight_offset / forest_weight);
-    int const rank_end = std::ceil (mpisize * (partition_weight_offset + partition_weight) / forest_weight);
+    int const rank_begin = first_offset_in_partition (mpirank);
+    int const rank_end = first_offset_in_partition (mpirank + 1);
     std::vector<t8_gloidx_t> local_offsets (rank_end - rank_begin, 0);
 
     // Prepare computation of local element offsets.
@@ -591,16 +603,19 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
       for (t8_locidx_t ielm = 0; ielm < t8_forest_get_tree_num_leaf_elements (forest_from, ltreeid); ++ielm) {
         T8_ASSERT (0 <= global_elm_idx && global_elm_idx < global_num_leaf_elements);
         accumulated_weight += weight_fcn (forest_from, ltreeid, ielm);
-        while (accumulated_weight
-               > forest_weight * iproc / mpisize) {  // there may be empty partitions, hence while and not if
-          T8_ASSERT (rank_begin <= iproc && iproc < rank_end);
+        while (iproc < rank_end
+               && accumulated_weight
+                    > forest_weight * iproc / mpisize) {  // there may be empty partitions, hence while and not if
           local_offsets[iproc - rank_begin] = global_elm_idx;
           ++iproc;
         }
         ++global_elm_idx;
       }
     }
-    T8_ASSERT (iproc == rank_end);  // i.e. local_offsets has been filled properly
+    // Offsets that are not reached, be it by rounding errors, are behind the last local element.
+    for (; iproc < rank_end; ++iproc) {
+      local_offsets[iproc - rank_begin] = global_elm_idx;
+    }
 
     // Allgather local offsets into the global element offset array.
     t8_shmem_array_allgatherv (local_offsets.data (), local_offsets.size (), T8_MPI_GLOIDX, forest->element_offsets,
-- 
2.43.0


From c9e0594d30dee91f8216de3cc790b43ce72a50f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 44/74] fix: balance test of forests with elements of maximum
 level

t8_forest_is_balanced aborted since it tried to construct half-size neighbors of
elements that have the maximum level.
---
 src/t8_forest/t8_forest_balance.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest_balance.cxx b/src/t8_forest/t8_forest_balance.cxx
index e4aa236..650edc4 100644
--- a/src/t8_forest/t8_forest_balance.cxx
+++ b/src/t8_forest/t8_forest_balance.cxx
@@ -77,8 +77,12 @@ t8_forest_balance_adapt (t8_forest_t forest, t8_forest_t forest_from, const t8_l
    * If we enter from the check function is_balanced, then it may not be set.
    */
 
-  if (forest_from->maxlevel_existing <= 0
-      || scheme->element_get_level (tree_class, element) <= forest_from->maxlevel_existing - 2) {
+  const int level = scheme->element_get_level (tree_class, element);
+  if (level >= t8_forest_get_maxlevel (forest_from)) {
+    /* There are no elements of greater level. */
+    return 0;
+  }
+  if (forest_from->maxlevel_existing <= 0 || level <= forest_from->maxlevel_existing - 2) {
 
     pdone = (int *) forest->t8code_data;
 
-- 
2.43.0


From 65e2c6bebb9a317cdee089c62c8d521d158fcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 45/74] fix: repartition the coarse mesh after balance with
 repartition

Balance with repartition moves leaves of whole trees to other processes, but a
partitioned coarse mesh kept its old partition.  Local trees of the forest were
then missing in the local coarse mesh.
---
 src/t8_forest/t8_forest.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 04ee2da..8b96212 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3407,6 +3407,7 @@ t8_forest_commit (t8_forest_t forest)
       }
       else {
         /* balance with repartition */
+        partitioned = 1;
         t8_forest_balance (forest, 1);
       }
     }
-- 
2.43.0


From 1c2fdb113334b581c8062fe970f1672bccf2ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 46/74] fix: use element weights and offsets if a forest is
 partitioned and balanced

If a forest is partitioned and balanced in the same commit, the weight function
and the user-defined offset of the partition were ignored.
---
 src/t8_forest/t8_forest.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 8b96212..86c7110 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3370,6 +3370,10 @@ t8_forest_commit (t8_forest_t forest)
           t8_forest_ref (forest->set_from);
         }
         t8_forest_set_partition (forest_partition, forest->set_from, forest->set_for_coarsening);
+        /* pass on the settings of the partition */
+        forest_partition->weight_function = forest->weight_function;
+        forest_partition->set_partition_offset = forest->set_partition_offset;
+        forest_partition->set_first_global_element = forest->set_first_global_element;
         /* activate profiling, if this forest has profiling */
         t8_forest_set_profiling (forest_partition, forest->profile != nullptr);
         /* Commit the partitioned forest */
-- 
2.43.0


From b0cf217b6b0ecd617a38dc6897e3afffc7f92e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:53 +0000
Subject: [PATCH 47/74] fix: recursive coarsening of pyramid families

The check whether an element is the last of its family used the number of
children of the element that was adapted before.
---
 src/t8_forest/t8_forest_adapt.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index aa1bfc5..561c233 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -581,9 +581,6 @@ t8_forest_adapt (t8_forest_t forest)
            * This parent is now inserted in telements. */
           T8_ASSERT (scheme->element_get_level (tree->eclass, elements_from[0]) > 0);
           scheme->element_get_parent (tree->eclass, elements_from[0], elements[0]);
-          /* num_siblings is now equivalent to the number of children of elements[0],
-           * as num_siblings is always associated with elements_from*/
-          num_children = num_siblings;
           el_inserted++;
           if (forest->set_adapt_recursive) {
             /* Adaptation is recursive.
@@ -591,7 +588,7 @@ t8_forest_adapt (t8_forest_t forest)
              * family (and not the only one).
              * If so, we check this family for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0 && child_id == scheme->element_get_num_siblings (tree->eclass, elements[0]) - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
@@ -610,7 +607,7 @@ t8_forest_adapt (t8_forest_t forest)
              * If adaptation is recursive and this was the last element in its family
              * (and not the only one), we need to check for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0 && child_id == num_siblings - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
-- 
2.43.0


From 0e76f25cfe1656e9416b0b19959ae482ade21032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:00 +0000
Subject: [PATCH 48/74] fix: leaf face neighbors were listed twice when they
 are spread over local and ghost leaves

---
 src/t8_forest/t8_forest.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 86c7110..a0b47f4 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1957,6 +1957,10 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
         std::copy_n (user_data.dual_faces.begin (), num_neighbors_current_tree, *dual_faces + *num_neighbors);
         *num_neighbors = total_num_neighbors;
       }
+      // Empty the buffer, such that these neighbors are not added again with those of the next leaf array.
+      user_data.neighbors.clear ();
+      user_data.element_indices.clear ();
+      user_data.dual_faces.clear ();
     }  // End if neighbors exist (first_leaf_index > 0)
     // clean up memory allocated with new
     delete leaf_array;
-- 
2.43.0


From f07972f086d1b40ee930f0c7022ff41875ee3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 49/74] fix: ghost layer by half neighbors aborted on elements
 of the maximum level of a hybrid forest

---
 src/t8_forest/t8_forest_ghost.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index ba9f6fc..c588744 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -849,7 +849,7 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       /* Get the element of the tree */
       const t8_element_t *elem = t8_forest_get_tree_leaf_element (tree, ielem);
       num_faces = scheme->element_get_num_faces (tree_class, elem);
-      if (scheme->element_get_level (tree_class, elem) == scheme->get_maxlevel (tree_class)) {
+      if (scheme->element_get_level (tree_class, elem) == t8_forest_get_maxlevel (forest)) {
         /* flag to decide whether this element is at the maximum level */
         is_atom = 1;
       }
-- 
2.43.0


From 1b7bbf697b4d577b390a880fc06e4a56410b2929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 50/74] fix: shared trees of forests with removed elements were
 not recognised across empty processes

---
 src/t8_forest/t8_forest.cxx | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index a0b47f4..bea35a6 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1249,10 +1249,6 @@ t8_forest_tree_shared ([[maybe_unused]] t8_forest_t forest, [[maybe_unused]] int
   t8_gloidx_t global_neighbour_tree_idx;
   int ret;
   int mpiret;
-  int mpirank_from;
-  int mpirank_to;
-  sc_MPI_Request request;
-  sc_MPI_Status status;
 
   if (forest->mpisize == 1) {
     /* Nothing to share */
@@ -1261,31 +1257,18 @@ t8_forest_tree_shared ([[maybe_unused]] t8_forest_t forest, [[maybe_unused]] int
   if (forest->incomplete_trees) {
     if (first_or_last == 0) {
       T8_ASSERT (forest->mpisize > 1);
-      if (forest->mpirank == 0) {
-        mpirank_from = forest->mpisize - 1;
-        mpirank_to = forest->mpirank + 1;
-      }
-      else if (forest->mpirank == forest->mpisize - 1) {
-        T8_ASSERT (forest->mpirank > 0);
-        mpirank_from = forest->mpirank - 1;
-        mpirank_to = 0;
-      }
-      else {
-        T8_ASSERT (forest->mpirank > 0 && forest->mpirank < forest->mpisize - 1);
-        mpirank_from = forest->mpirank - 1;
-        mpirank_to = forest->mpirank + 1;
-      }
-      mpiret = sc_MPI_Irecv (&global_neighbour_tree_idx, 1, T8_MPI_GLOIDX, mpirank_from, 0, forest->mpicomm, &request);
-      SC_CHECK_MPI (mpiret);
-      mpiret = sc_MPI_Send (&forest->last_local_tree, 1, T8_MPI_GLOIDX, mpirank_to, 0, forest->mpicomm);
-      SC_CHECK_MPI (mpiret);
-      mpiret = sc_MPI_Wait (&request, &status);
+      /* The process before us that has elements is not necessarily our direct predecessor.
+       * Thus, we need the last trees of all smaller processes. */
+      const t8_gloidx_t last_nonempty_tree = forest->local_num_leaf_elements > 0 ? forest->last_local_tree : -1;
+      std::vector<t8_gloidx_t> last_trees (forest->mpisize);
+      mpiret = sc_MPI_Allgather ((void *) &last_nonempty_tree, 1, T8_MPI_GLOIDX, last_trees.data (), 1, T8_MPI_GLOIDX,
+                                 forest->mpicomm);
       SC_CHECK_MPI (mpiret);
-      if (!forest->mpirank) {
-        /* First process has nothing to do any more */
-        T8_ASSERT (!forest->mpirank);
+      if (forest->mpirank == 0 || forest->local_num_leaf_elements <= 0) {
+        /* The first process and empty processes do not share their first tree. */
         return 0;
       }
+      global_neighbour_tree_idx = *std::max_element (last_trees.begin (), last_trees.begin () + forest->mpirank);
       T8_ASSERT (global_neighbour_tree_idx < forest->global_num_trees);
     }
     else {
-- 
2.43.0


From 9e479c2a85e56f4a749f5cf94f2e55da23bc4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:15 +0000
Subject: [PATCH 51/74] fix: shared geometry handler kept pointers to the tree
 data of a destroyed cmesh

---
 src/t8_cmesh/t8_cmesh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 653149d..3abbbc3 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1231,6 +1231,8 @@ t8_cmesh_reset (t8_cmesh_t *pcmesh)
   }
 
   if (cmesh->geometry_handler != nullptr) {
+    /* Other cmeshes may share this handler. It must not keep pointers to our tree data. */
+    cmesh->geometry_handler->deactivate_tree ();
     cmesh->geometry_handler->unref ();
     cmesh->geometry_handler = nullptr;
   }
-- 
2.43.0


From ee9c34b7d82b8bca7de29f3bec4bc9c7be15372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 52/74] fix: shmem binary search read one entry past the end of
 the array

t8_shmem_array_binary_search takes the number of entries, but used it as
the index of the last candidate, so looking for a value greater than all
entries called the comparison with index size. Both callers worked around
it by passing one entry less.
---
 src/t8_cmesh/t8_cmesh.cxx | 4 ++--
 src/t8_data/t8_shmem.c    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 3abbbc3..69e36ce 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -2273,7 +2273,7 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
   /* Post the receives. */
   if (expect_start_message) {
     const int recv_from
-      = t8_shmem_array_binary_search (offset_array, first_element, cmesh->mpisize - 1, find_bounds_in_offset);
+      = t8_shmem_array_binary_search (offset_array, first_element, cmesh->mpisize, find_bounds_in_offset);
 
     T8_ASSERT (0 <= recv_from && recv_from < cmesh->mpisize);
 
@@ -2291,7 +2291,7 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
   }
   if (expect_end_message) {
     const int recv_from
-      = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize - 1, find_bounds_in_offset);
+      = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize, find_bounds_in_offset);
 
     T8_ASSERT (0 <= recv_from && recv_from < cmesh->mpisize);
     recv_message (false, last_local_tree, child_in_tree_end, nullptr, nullptr, global_num_elements, cmesh, recv_from,
diff --git a/src/t8_data/t8_shmem.c b/src/t8_data/t8_shmem.c
index 728abe9..05e82ec 100644
--- a/src/t8_data/t8_shmem.c
+++ b/src/t8_data/t8_shmem.c
@@ -545,7 +545,7 @@ t8_shmem_array_binary_search (t8_shmem_array_t array, const t8_gloidx_t value, c
                               int (*compare) (t8_shmem_array_t, const int, const t8_gloidx_t))
 {
   int low = 0;
-  int high = size;
+  int high = size - 1;
 
   while (low <= high) {
     int mid = low + (high - low) / 2;
-- 
2.43.0


From 0e10c1075f59573490b00265f85d6aa690876c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 53/74] fix: element array iterator operator-= asserted an
 invalid result

The assertion demanded that the index is negative after subtracting, so
every valid use aborted in debug mode.
---
 src/t8_data/t8_element_array_iterator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_data/t8_element_array_iterator.hxx b/src/t8_data/t8_element_array_iterator.hxx
index e792d24..b88cab4 100644
--- a/src/t8_data/t8_element_array_iterator.hxx
+++ b/src/t8_data/t8_element_array_iterator.hxx
@@ -201,7 +201,7 @@ struct t8_element_array_iterator
   operator-= (const difference_type n)
   {
     current_index -= n;
-    T8_ASSERT (current_index < 0);
+    T8_ASSERT (current_index >= 0);
     return *this;
   }
   /* Comparison operators */
-- 
2.43.0


From 9adac52249c566dc6b85a1d51dd772ec6c9e6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 54/74] fix: t8_element_array_find read the first element of an
 empty array

---
 src/t8_data/t8_containers.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_data/t8_containers.cxx b/src/t8_data/t8_containers.cxx
index 946dd04..55b08a0 100644
--- a/src/t8_data/t8_containers.cxx
+++ b/src/t8_data/t8_containers.cxx
@@ -330,6 +330,10 @@ t8_element_array_get_array_mutable (t8_element_array_t *element_array)
 t8_locidx_t
 t8_element_array_find (const t8_element_array_t *element_array, const t8_element_t *element)
 {
+  if (t8_element_array_get_count (element_array) == 0) {
+    /* There is nothing to search in. */
+    return -1;
+  }
   /* In order to find the element, we need to compute its linear id.
    * To do so, we need the scheme and the level of the element. */
   const t8_scheme *scheme = t8_element_array_get_scheme (element_array);
-- 
2.43.0


From 089b061a5e041ef89b7768f52e28c7a6c8f3a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 55/74] fix: linear geometry of a vertex read beyond its single
 corner

For the second and all further points of a batch the coordinates were read
behind the one corner a vertex has.
---
 src/t8_geometry/t8_geometry_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 23235bb..43063a6 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -114,7 +114,7 @@ t8_geom_compute_linear_geometry (t8_eclass_t tree_class, const double *tree_vert
     for (i_coord = 0; i_coord < num_coords; i_coord++) {
       const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
       for (i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; i_dim++) {
-        out_coords[offset_domain_dim + i_dim] = tree_vertices[offset_domain_dim + i_dim];
+        out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
       }
     }
     break;
-- 
2.43.0


From a220fc3bd1d3cb93104d22472e780b9825fff92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 56/74] fix: axis-aligned geometry of lines and quads used the
 wrong reference coordinates

The i-th space coordinate was computed from the i-th reference coordinate.
Lines and quads have fewer than three of them, so the values were read
from the next point or beyond the array, and lines along y or z and quads
in the xz- or yz-plane were mapped to wrong points.
---
 src/t8_geometry/t8_geometry_helpers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 43063a6..68946bc 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -227,9 +227,14 @@ t8_geom_compute_linear_axis_aligned_geometry (const t8_eclass_t tree_class, cons
   for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
     const size_t offset_tree_dim = i_coord * dimension;
     const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
+    /* The reference coordinates belong to the axes in which the tree is extended, in ascending order. */
+    int i_ref = 0;
     for (int i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; ++i_dim) {
       out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
-      out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_dim] * vector[i_dim];
+      if (i_ref < dimension && (dimension == T8_ECLASS_MAX_DIM || fabs (vector[i_dim]) > SC_EPS)) {
+        out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_ref] * vector[i_dim];
+        ++i_ref;
+      }
     }
   }
 }
-- 
2.43.0


From 85c15eb22bf0c5a3dca59cfab921e7415faaca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 57/74] fix: zero geometry wrote behind its output and used an
 unset tree class

The evaluation set the three entries behind the output array instead of
the output itself and the size of the Jacobian depended on a tree class
that was never loaded.
---
 .../t8_geometry_implementations/t8_geometry_zero.cxx  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 0c40d27..760c727 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -41,9 +41,9 @@ t8_geometry_zero::t8_geom_evaluate ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_u
 {
   /* Set the out_coords to 0 */
   for (size_t coord = 0; coord < num_coords; coord++) {
-    out_coords[0 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[1 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[2 + num_coords * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[0 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[1 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[2 + coord * T8_ECLASS_MAX_DIM] = 0;
   }
 }
 
@@ -58,9 +58,10 @@ t8_geometry_zero::t8_geom_evaluate_jacobian ([[maybe_unused]] t8_cmesh_t cmesh,
 }
 
 inline void
-t8_geometry_zero::t8_geom_load_tree_data ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_unused]] t8_gloidx_t gtreeid)
+t8_geometry_zero::t8_geom_load_tree_data (t8_cmesh_t cmesh, t8_gloidx_t gtreeid)
 {
-  /* Do nothing. */
+  /* We need no tree data except the class of the tree for the size of its Jacobian. */
+  t8_geometry::t8_geom_load_tree_data (cmesh, gtreeid);
 }
 
 T8_EXTERN_C_BEGIN ();
-- 
2.43.0


From 74a04a3e5474dd05c716bc6db334dca27698fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 58/74] fix: stretched reference coordinates were packed by
 tree dimension

element_get_reference_coords reads three entries per point for every
dimension, so that stretching several points of a line or 2D element mixed
up their coordinates, and more than eight points overran the buffer.
---
 src/t8_forest/t8_forest.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index bea35a6..137b043 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -438,15 +438,15 @@ t8_forest_element_from_ref_coords_ext (t8_forest_t forest, t8_locidx_t ltreeid,
     const t8_geometry_type_t geom_type = t8_geometry_get_type (cmesh, gtreeid);
     T8_ASSERT (geom_type == T8_GEOMETRY_TYPE_LINEAR || geom_type == T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED);
 #endif /* T8_ENABLE_DEBUG */
-    const int tree_dim = t8_eclass_to_dimension[tree_class];
-    double stretched_ref_coords[T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM];
+    double *stretched_ref_coords = T8_ALLOC_ZERO (double, T8_ECLASS_MAX_DIM * num_coords);
     for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
       for (int dim = 0; dim < tree_dim; ++dim) {
-        stretched_ref_coords[i_coord * tree_dim + dim]
-          = 0.5 + ((ref_coords[i_coord * tree_dim + dim] - 0.5) * stretch_factors[dim]);
+        stretched_ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim]
+          = 0.5 + ((ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim] - 0.5) * stretch_factors[dim]);
       }
     }
     scheme->element_get_reference_coords (tree_class, element, stretched_ref_coords, num_coords, tree_ref_coords);
+    T8_FREE (stretched_ref_coords);
   }
   else {
     scheme->element_get_reference_coords (tree_class, element, ref_coords, num_coords, tree_ref_coords);
-- 
2.43.0


From 134e5fe56443d7b183e159e91aa49fdd5adee0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:04 +0000
Subject: [PATCH 59/74] fix: point in line test divided by rounding noise

The position on the line was computed from the first component of the
line's direction that is not exactly zero. For lines that are aligned to an
axis only up to rounding errors the result was arbitrary. Use the component
with the largest magnitude.
---
 src/t8_geometry/t8_geometry_helpers.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 68946bc..af3ceb9 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -574,19 +574,21 @@ t8_line_point_inside (const double *p_0, const double *vec, const double *point,
   * vec * x = b.
   * We can compute it as
   * x = b[i] / vec[i]
-  * if any vec[i] is not 0.
+  * if any vec[i] is not 0. We choose the one with the largest magnitude, since the
+  * others may be 0 up to rounding errors.
   *
   * Otherwise the line is degenerated (which should not happen).
   */
-  for (i = 0; i < 3; ++i) {
-    if (vec[i] != 0) {
-      x = b[i] / vec[i];
-      break; /* found a non-zero coordinate. We can stop now. */
+  int i_max = 0;
+  for (i = 1; i < 3; ++i) {
+    if (fabs (vec[i]) > fabs (vec[i_max])) {
+      i_max = i;
     }
   }
 
-  /* If i == 3 here, then vec = 0 and hence the line is degenerated. */
-  SC_CHECK_ABORT (i < 3, "Degenerated line element. Both endpoints are the same.");
+  /* If the largest coordinate is 0, then vec = 0 and hence the line is degenerated. */
+  SC_CHECK_ABORT (vec[i_max] != 0, "Degenerated line element. Both endpoints are the same.");
+  x = b[i_max] / vec[i_max];
 
   if (x < -tolerance || x > 1 + tolerance) {
     /* x is not an admissible solution. */
-- 
2.43.0


From 03ef9bb2d6bce18eca6bde4884d53ec134d9c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:04 +0000
Subject: [PATCH 60/74] fix: point in triangle test failed for triangles
 perpendicular to the xy-plane

The triangle was always projected to the xy-plane. For triangles (and
quads) that are perpendicular to it the determinant is zero and points far
away were reported inside. Project along the axis with the largest
component of the triangle's normal.
---
 src/t8_geometry/t8_geometry_helpers.c | 37 +++++++++++++++++++--------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index af3ceb9..35c7512 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -622,7 +622,10 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
    * We check whether such a solution exists by computing
    * certain determinants of 2x2 submatrizes of the 3x3 matrix
    *
-   *  | v w e_3 | with v = p_1 - p_0, w = p_2 - p_0, and e_3 = (0 0 1)^t (third unit vector)
+   *  | v w e_k | with v = p_1 - p_0, w = p_2 - p_0, and e_k the k-th unit vector.
+   *
+   * We choose k such that the determinant of this matrix has the largest magnitude. In particular
+   * it is not zero if the triangle is not degenerated.
    */
 
   T8_ASSERT (tolerance > 0); /* negative values and zero are not allowed */
@@ -630,16 +633,28 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
   /* b = point - p_0 */
   t8_axpyz (p_0, point, b, -1);
 
-  /* Let d = det (v w e_3) */
-  const double det_vwe3 = v[0] * w[1] - v[1] * w[0];
+  /* The cross product of v and w has the entries det (v w e_k) */
+  double cross[3];
+  t8_cross_3D (v, w, cross);
+  int k = 2;
+  for (int i_dim = 0; i_dim < 2; ++i_dim) {
+    if (fabs (cross[i_dim]) > fabs (cross[k])) {
+      k = i_dim;
+    }
+  }
+  const int i = (k + 1) % 3;
+  const int j = (k + 2) % 3;
+
+  /* Let d = det (v w e_k) */
+  const double det_vwek = cross[k];
 
   /* The system has a solution, we need to compute it and
    * check whether 0 <= x,y and x + y <= 1 */
-  /* x = det (b w e_3) / d
-   * y = det (v b e_3) / d
+  /* x = det (b w e_k) / d
+   * y = det (v b e_k) / d
    */
-  const double x = (b[0] * w[1] - b[1] * w[0]) / det_vwe3;
-  const double y = (v[0] * b[1] - v[1] * b[0]) / det_vwe3;
+  const double x = (b[i] * w[j] - b[j] * w[i]) / det_vwek;
+  const double y = (v[i] * b[j] - v[j] * b[i]) / det_vwek;
 
   if (x < -tolerance || y < -tolerance || x + y > 1 + tolerance) {
     /* The solution is not admissible.
@@ -652,11 +667,11 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
    * is actually p - p_0.
    * Since the system of equations is overrepresented (3 equations, 2 variables)
    * this may actually break.
-   * If it breaks, it will break in the z coordinate of the result.
+   * If it breaks, it will break in the k-th coordinate of the result.
    */
-  const double z = v[2] * x + w[2] * y;
-  /* Must match the last coordinate of b = p - p_0 */
-  if (fabs (z - b[2]) > tolerance) {
+  const double z = v[k] * x + w[k] * y;
+  /* Must match the k-th coordinate of b = p - p_0 */
+  if (fabs (z - b[k]) > tolerance) {
     /* Does not match. Point lies outside. */
     return 0;
   }
-- 
2.43.0


From dec621d31f26a4507395fe6c7ef33fb8ac77d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:04 +0000
Subject: [PATCH 61/74] fix: point in element test ignored the tolerance in 3D

Points on the common boundary of leaf elements could be reported to lie in
none of them due to rounding errors, no matter how large the tolerance.
---
 .../t8_geometry_implementations/t8_geometry_linear.cxx          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
index 771b6f5..956dded 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
@@ -186,6 +186,8 @@ t8_geometry_linear::t8_geom_point_batch_inside_element (t8_forest_t forest, t8_l
       const int afacecorner = scheme->element_get_face_corner (tree_class, element, iface, 0);
       double point_on_face[3];
       t8_forest_element_coordinate (forest, ltreeid, element, afacecorner, point_on_face);
+      /* Move the face outwards by the tolerance */
+      t8_axpy (face_normal, point_on_face, tolerance);
       for (int ipoint = 0; ipoint < num_points; ipoint++) {
         const int is_inside_iface = t8_plane_point_inside (point_on_face, face_normal, &points[ipoint * 3]);
         if (is_inside_iface == 0) {
-- 
2.43.0


From ffe8a358dcc65d9560d13960c2c9daa664655758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 62/74] fix: pvtu file omitted the data section when only
 vector fields are written

Without any scalar the PPointData and PCellData sections were left out, so
that the vector fields of the pieces were not announced.
---
 src/t8_vtk/t8_vtk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_vtk/t8_vtk.c b/src/t8_vtk/t8_vtk.c
index 3a9480b..46fd458 100644
--- a/src/t8_vtk/t8_vtk.c
+++ b/src/t8_vtk/t8_vtk.c
@@ -107,7 +107,7 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
       }
     }
 
-    if (strcmp (vtkPointDataString, "")) {
+    if (strcmp (vtkPointDataString, "") || num_scalars < num_data) {
       fprintf (pvtufile, "    <PPointData Scalars=\"%s\"", vtkPointDataString);
       if (num_scalars < num_data) {
         /* Add Vector strings */
@@ -187,7 +187,7 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
                              data[idata].description);
       }
     }
-    if (strcmp (vtkCellDataString, "")) {
+    if (strcmp (vtkCellDataString, "") || num_scalars < num_data) {
       fprintf (pvtufile, "    <PCellData Scalars=\"%s\"", vtkCellDataString);
       if (num_scalars < num_data) {
         /* Add Vector strings */
-- 
2.43.0


From 1c44da4a34f4964bfe300f45e72ac153dc8428c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 63/74] fix: cmesh vtk writer reported success for incomplete
 files

The result of the buffered writes was never looked at.
---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 35bcb21..cfd7570 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -1195,7 +1195,11 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
     fprintf (vtufile, "    </Piece>\n");
     fprintf (vtufile, "  </UnstructuredGrid>\n");
     fprintf (vtufile, "</VTKFile>\n");
-    fclose (vtufile);
+    const int write_error = ferror (vtufile);
+    if (fclose (vtufile) || write_error) {
+      t8_errorf ("Error when writing file %s\n", vtufilename);
+      return write_failure;
+    }
   }
   return write_successful;
 }
-- 
2.43.0


From e1024517cb62d279a77ec8dcee269def67f7fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 64/74] fix: cmesh vtk writer dereferenced a missing tree for
 ghosts without vertices

The error message for a ghost used the tree pointer of the loop before.
---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index cfd7570..bd140ab 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -1033,8 +1033,8 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
         /* Get a pointer to this ghosts vertices */
         vertices = (double *) t8_cmesh_get_attribute (cmesh, t8_get_package_id (), 0, ighost + num_loc_trees);
         if (vertices == nullptr) {
-          t8_errorf ("Error in writing file %s. Could not read vertex coordinates for cmesh tree %i.\n", vtufilename,
-                     tree->treeid);
+          t8_errorf ("Error in writing file %s. Could not read vertex coordinates for cmesh ghost tree %i.\n",
+                     vtufilename, ighost);
           fclose (vtufile);
           return write_failure;
         }
-- 
2.43.0


From 7ad25e8a3ab9fa2bdae75d021ad52632174123df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 65/74] fix: cmesh vtk writer read beyond the two corners of
 axis-aligned trees

The vertices attribute of a tree with the axis-aligned geometry holds two
opposite corners only. All corners are computed with the geometry now.
---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index bd140ab..cf96829 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -25,6 +25,8 @@
 #include <t8_vtk/t8_vtk.h>
 #include <t8_forest/t8_forest_ghost.h>
 #include <t8_types/t8_vec.hxx>
+#include <t8_geometry/t8_geometry.h>
+#include <t8_element/t8_element.h>
 #include "t8_forest/t8_forest_types.h"
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.h>
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
@@ -934,6 +936,23 @@ t8_cmesh_get_num_vertices (const t8_cmesh_t cmesh, const int count_ghosts)
   return num_vertices;
 }
 
+/* Return the corner coordinates of a tree in t8code's corner order.
+ * The vertices attribute of an axis-aligned tree only stores two opposite corners. In that case all corners
+ * are computed with the geometry and stored in \a corners. Otherwise, \a vertices already holds all corners.
+ */
+static const double *
+t8_cmesh_vtk_tree_corners (const t8_cmesh_t cmesh, const t8_gloidx_t gtreeid, const t8_eclass_t eclass,
+                           const double *vertices, double *corners)
+{
+  if (t8_geometry_get_type (cmesh, gtreeid) != T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED) {
+    return vertices;
+  }
+  for (int ivertex = 0; ivertex < t8_eclass_num_vertices[eclass]; ivertex++) {
+    t8_geometry_evaluate (cmesh, gtreeid, t8_element_corner_ref_coords[eclass][ivertex], 1, corners + 3 * ivertex);
+  }
+  return corners;
+}
+
 static int
 t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, const int write_ghosts)
 {
@@ -962,7 +981,8 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
     t8_locidx_t num_trees;
     t8_ctree_t tree;
     double x, y, z;
-    double *vertices, *vertex;
+    const double *vertices, *vertex;
+    double corners[T8_ECLASS_MAX_CORNERS * 3];
     int k, sk;
     long long offset, count_vertices;
     t8_locidx_t ighost, num_ghosts = 0, num_loc_trees;
@@ -1010,6 +1030,7 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
         fclose (vtufile);
         return write_failure;
       }
+      vertices = t8_cmesh_vtk_tree_corners (cmesh, cmesh->first_tree + tree->treeid, tree->eclass, vertices, corners);
       for (ivertex = 0; ivertex < t8_eclass_num_vertices[tree->eclass]; ivertex++) {
         vertex = vertices + 3 * t8_eclass_t8_to_vtk_corner_number[tree->eclass][ivertex];
         x = vertex[0];
@@ -1040,6 +1061,8 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
         }
 
         T8_ASSERT (vertices != NULL);
+        vertices = t8_cmesh_vtk_tree_corners (cmesh, t8_cmesh_get_global_id (cmesh, ighost + num_loc_trees), eclass,
+                                              vertices, corners);
         /* TODO: This code is duplicated above */
         for (ivertex = 0; ivertex < t8_eclass_num_vertices[eclass]; ivertex++) {
           vertex = vertices + 3 * t8_eclass_vtk_to_t8_corner_number[eclass][ivertex];
-- 
2.43.0


From 25fa461c9b46eda838dcabf29d717966f79e0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:09 +0000
Subject: [PATCH 66/74] fix: unique face vector lost the faces of elements that
 neighbor themselves

In a periodic mesh an element can be its own neighbor. Its face was never
inserted since neither side has the smaller handle id.
---
 mesh_handle/competences/dg_competences.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index 55ad31b..fa60d6f 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -231,7 +231,8 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           if (elem.get_level () == neighs[0]->get_level ()) {
             /* --- CONFORMAL or MPI_CONFORMAL --- */
             // Insert only from the side with the smaller handle_id so that each conformal face appears exactly once.
-            if (handle_id < neigh_id) {
+            // An element can be its own neighbor in a periodic mesh.
+            if (handle_id <= neigh_id) {
               face f;
               f.type = (neigh_rank != LOCAL_RANK) ? face_type::MPI_CONFORMAL : face_type::CONFORMAL;
               f.sides.push_back ({ handle_id, iface, LOCAL_RANK });
-- 
2.43.0


From feede446c07d7e87c9c107b31adb1741a254a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 67/74] fix: unique face vector lost the faces between levels
 of 1D meshes

The face of a line has a single neighbor even if that is finer. This case
was taken as impossible, so that neither side inserted the face.
---
 mesh_handle/competences/dg_competences.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index fa60d6f..42c6381 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -224,7 +224,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           m_faces.push_back (std::move (f));
           m_element_face_vector[handle_id][iface] = face_idx;
         }
-        else if (num_neighs == 1) {
+        else if (num_neighs == 1 && elem.get_level () >= neighs[0]->get_level ()) {
           const int neigh_id = neighs[0]->get_element_handle_id ();
           const int neigh_rank = mesh.get_rank (neigh_id);
 
@@ -286,7 +286,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           // No other case possible without incomplete trees.
         }
         else {
-          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1) ---  */
+          /* --- Large side of a MORTAR or MPI_MORTAR (in 1D there is only one small side) ---  */
           // We are the coarse element; neighs are all small mortars.
           bool any_remote = std::any_of (neighs.begin (), neighs.end (), [&] (const auto* neigh) {
             return mesh.get_rank (neigh->get_element_handle_id ()) != LOCAL_RANK;
-- 
2.43.0


From fbf4b5e00aa57ee3a195e03ebac9331267e6621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 68/74] fix: mesh handle left uncommitted settings behind when
 destroyed

A handle that was destroyed after set_adapt, set_partition, set_balance or
set_ghost without commit leaked the uncommitted forest. After set_adapt the
adapt registry additionally kept a context with a reference to the destroyed
handle, which was used for the next forest with the same address.
---
 mesh_handle/mesh.hxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mesh_handle/mesh.hxx b/mesh_handle/mesh.hxx
index b08fba5..136f410 100644
--- a/mesh_handle/mesh.hxx
+++ b/mesh_handle/mesh.hxx
@@ -127,6 +127,17 @@ class mesh: public TMeshCompetencePack::template apply<mesh<TElementCompetencePa
    */
   ~mesh ()
   {
+    // Drop settings that were never committed.
+    if (m_uncommitted_forest.has_value ()) {
+      if (detail::adapt_registry::get (m_forest) != nullptr) {
+        detail::adapt_registry::unregister_context (m_forest);
+      }
+      if (m_uncommitted_forest.value ()->set_from != NULL) {
+        // The uncommitted forest releases the forest it should be derived from.
+        t8_forest_ref (m_forest);
+      }
+      t8_forest_unref (&*m_uncommitted_forest);
+    }
     t8_forest_unref (&m_forest);
   }
 
-- 
2.43.0


From 16dafbd8c3351f86ac6d0262cd06e9a78855a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 69/74] fix: mesh handle could not be included in two
 translation units

The adapt callback wrapper is defined in a header and was not inline.
---
 mesh_handle/internal/adapt.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mesh_handle/internal/adapt.hxx b/mesh_handle/internal/adapt.hxx
index 1ca88e1..58fa8cb 100644
--- a/mesh_handle/internal/adapt.hxx
+++ b/mesh_handle/internal/adapt.hxx
@@ -176,7 +176,7 @@ class adapt_registry {
  *         0 else.
  * \note We do not support removing elements for the mesh handle.
  */
-int
+inline int
 mesh_adapt_callback_wrapper ([[maybe_unused]] t8_forest_t forest, t8_forest_t forest_from, t8_locidx_t which_tree,
                              t8_eclass_t tree_class, t8_locidx_t lelement_id, [[maybe_unused]] const t8_scheme* scheme,
                              const int is_family, const int num_elements, t8_element_t* elements[])
-- 
2.43.0


From c18f6188cf9b8c5d6784e3d53a832f7cbf2b544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:38 +0000
Subject: [PATCH 70/74] fix: disabling profiling of a cmesh left a pointer to
 freed memory

---
 src/t8_cmesh/t8_cmesh.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 69e36ce..c62b731 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -611,6 +611,7 @@ t8_cmesh_set_profiling (t8_cmesh_t cmesh, const int set_profiling)
     /* Free any profile that is already set */
     if (cmesh->profile != nullptr) {
       T8_FREE (cmesh->profile);
+      cmesh->profile = nullptr;
     }
   }
 }
-- 
2.43.0


From 9e360fadfb9caa4cf680c800a3bbd3be11b93cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:38 +0000
Subject: [PATCH 71/74] fix: disabling profiling of a forest left a pointer to
 freed memory

---
 src/t8_forest/t8_forest.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 137b043..c291e51 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3966,6 +3966,7 @@ t8_forest_set_profiling (t8_forest_t forest, int set_profiling)
     /* Free any profile that is already set */
     if (forest->profile != nullptr) {
       T8_FREE (forest->profile);
+      forest->profile = nullptr;
     }
   }
 }
-- 
2.43.0


From ba34d039e50d71ac176a5f2ed017dcccf76a6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:49 +0000
Subject: [PATCH 72/74] fix: forest profile was computed over all processes
 instead of those of the forest

---
 src/t8_forest/t8_forest.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index c291e51..030c7f5 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3999,7 +3999,7 @@ t8_forest_compute_profile (t8_forest_t forest)
     sc_stats_set1 (&forest->stats[15], profile->balance_rounds, "forest: offset runtime.");
     sc_stats_set1 (&forest->stats[16], profile->balance_rounds, "forest: first descendant runtime.");
     /* compute stats */
-    sc_stats_compute (sc_MPI_COMM_WORLD, T8_PROFILE_NUM_STATS, forest->stats);
+    sc_stats_compute (forest->mpicomm, T8_PROFILE_NUM_STATS, forest->stats);
     forest->stats_computed = 1;
   }
 }
-- 
2.43.0


From 85f23c706302a6bb112db35e59ac4f90b60d7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:24 +0000
Subject: [PATCH 73/74] fix: partition table by percentage aborted unless the
 percentages of all processes sum up to 100

The percentage is the same on every process, as documented and as used by
t8_cmesh_offset_half.
---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 8785653..71c12e3 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1786,13 +1786,8 @@ t8_cmesh_offset_percent (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const int per
   const t8_gloidx_t *old_partition;
   int mpirank, mpisize, mpiret;
   int created = 0;
-#if T8_ENABLE_DEBUG
-  int total = 0;
-  int proc_perc = percent;
-  sc_MPI_Allreduce (&proc_perc, &total, 1, sc_MPI_INT, sc_MPI_SUM, comm);
-  T8_ASSERT (total == 100);
-#endif
 
+  T8_ASSERT (0 <= percent && percent <= 100);
   T8_ASSERT (t8_cmesh_is_committed (cmesh));
   T8_ASSERT (t8_cmesh_comm_is_valid (cmesh, comm));
 
-- 
2.43.0


From 813528691661c53348526da8b6d363a49232874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:01 +0000
Subject: [PATCH 74/74] fix: smallest level without empty processes was wrong
 for pyramids and hybrid meshes

The estimate by the smallest number of children of a root is neither a lower
nor an upper bound; count the leaves of the uniform levels instead.
---
 src/t8_forest/t8_forest.cxx | 41 +++++++++++++++----------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 030c7f5..0295659 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -246,41 +246,34 @@ t8_forest_get_dimension (const t8_forest_t forest)
 int
 t8_forest_min_nonempty_level (t8_cmesh_t cmesh, const t8_scheme *scheme)
 {
-  int level, min_num_children, maxlevel;
-  int eclass;
-  t8_element_t *element;
-
   if (cmesh->mpisize <= cmesh->num_trees) {
     /* If there are more trees than processes, level 0 is the minimum */
     return 0;
   }
 
-  /* Compute the minimum number of children for a tree in the cmesh */
-  /* Also compute the maximum possible level */
-  min_num_children = 100;
-  maxlevel = 100;
-  for (eclass = T8_ECLASS_ZERO; eclass < T8_ECLASS_COUNT; eclass++) {
+  /* Compute the minimum possible maximum refinement level */
+  int maxlevel = 100;
+  for (int eclass = T8_ECLASS_ZERO; eclass < T8_ECLASS_COUNT; eclass++) {
     if (cmesh->num_trees_per_eclass[eclass] > 0) {
-      /* Compute the number of children of the root tree. */
-      scheme->element_new ((t8_eclass_t) eclass, 1, &element);
-      scheme->set_to_root ((t8_eclass_t) eclass, element);
-      min_num_children = SC_MIN (min_num_children, scheme->element_get_num_children ((t8_eclass_t) eclass, element));
-      scheme->element_destroy ((t8_eclass_t) eclass, 1, &element);
-      /* Compute the minimum possible maximum refinement level */
       maxlevel = SC_MIN (maxlevel, scheme->get_maxlevel ((t8_eclass_t) eclass));
     }
   }
 
-  if (min_num_children == 1) {
-    return -1;
+  /* Find the smallest level whose uniform forest has at least one element per process. */
+  for (int level = 1; level <= maxlevel; level++) {
+    t8_gloidx_t num_elements = 0;
+    for (int eclass = T8_ECLASS_ZERO; eclass < T8_ECLASS_COUNT; eclass++) {
+      if (cmesh->num_trees_per_eclass[eclass] > 0) {
+        num_elements
+          += cmesh->num_trees_per_eclass[eclass] * scheme->count_leaves_from_root ((t8_eclass_t) eclass, level);
+      }
+    }
+    if (num_elements >= cmesh->mpisize) {
+      return level;
+    }
   }
-
-  /* To compute the level, we need the smallest l such that
-   * trees * min_num_child^l >= mpisize
-   *  <=>  l >= log (mpisize/trees) / log (min_num_child)
-   */
-  level = ceil (log (cmesh->mpisize / (double) cmesh->num_trees) / log (min_num_children));
-  return level;
+  /* There is no such level */
+  return -1;
 }
 
 int
-- 
2.43.0

